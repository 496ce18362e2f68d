//! An independent model of Substrait text plans: an AST with its canonical protobuf form, random
//! equivalent protobuf encodings, and an independent printer for canonical and randomly styled
//! text. Nothing here calls into substrait-explain; only the protobuf types are shared.
use crate::rng::Rng;
use substrait::proto as p;

pub const SIMPLE: [&str; 15] = [
    "boolean", "i8", "i16", "i32", "i64", "fp32", "fp64", "string", "binary", "timestamp_tz", "timestamp", "date",
    "time", "interval_year", "uuid",
];

#[derive(Clone, Debug, PartialEq)]
pub enum TyK {
    Simple(usize),
    PTs(i32),
    PTsTz(i32),
    PTime(i32),
    IvDay(i32),
    List(Box<Ty>),
    User(u32, Vec<Ty>),
}
#[derive(Clone, Debug, PartialEq)]
pub struct Ty {
    pub k: TyK,
    pub n: bool,
}

#[derive(Clone, Debug, PartialEq)]
pub enum LitV {
    Bool(bool),
    I8(i32),
    I16(i32),
    I32(i32),
    I64(i64),
    F32(f32),
    F64(f64),
    Str(String),
    Date(i32),
    Time(i64),
    Ts(i64),
    PTime(i32, i64),
    PTs(i32, i64),
    PTsTz(i32, i64),
    IvDay { p: i32, days: i32, secs: i32, sub: i64 },
    Null(Ty),
}
#[derive(Clone, Debug, PartialEq)]
pub struct Lit {
    pub v: LitV,
    pub n: bool,
}

#[derive(Clone, Debug, PartialEq)]
pub enum Ex {
    Ref(i32),
    Lit(Lit),
    Call(u32, Vec<Ex>, Ty),
    Cast(Box<Ex>, Ty, u8),
    If(Vec<(Ex, Ex)>, Box<Ex>),
}

#[derive(Clone, Debug, PartialEq)]
pub enum Arg {
    Str(String),
    Int(i64),
    Float(f64),
    Bool(bool),
    Null,
    Enum(String),
    Tuple(Vec<Arg>),
    Ex(Ex),
}
#[derive(Clone, Debug, PartialEq)]
pub enum ECol {
    Named(String, Ty),
    Ex(Ex),
}
#[derive(Clone, Debug, PartialEq, Default)]
pub struct Inv {
    /// Index into `ext::NAMES`.
    pub which: usize,
    pub pos: Vec<Arg>,
    /// In the handler's canonical order.
    pub named: Vec<(String, Arg)>,
    pub cols: Vec<ECol>,
}

#[derive(Clone, Debug, PartialEq)]
pub enum POut {
    Ref(usize),
    Ex(Ex),
}
#[derive(Clone, Debug, PartialEq)]
pub enum AOut {
    G(usize),
    M(Ex),
}

pub type Cols = Vec<(String, Ty)>;

#[derive(Clone, Debug, PartialEq)]
pub enum Op {
    Read { table: Vec<String>, cols: Cols, emit: Option<Vec<usize>> },
    Virt { rows: Vec<Vec<Ex>>, cols: Cols, filter: Option<Ex> },
    RExt { cols: Cols, inv: Inv },
    Filter { cond: Ex, emit: Vec<usize> },
    Project { outs: Vec<POut> },
    Agg { g: Vec<Ex>, sets: Vec<Vec<usize>>, outs: Vec<AOut> },
    Sort { fields: Vec<(Ex, usize)>, emit: Vec<usize> },
    Fetch { limit: Option<Ex>, offset: Option<Ex>, emit: Vec<usize> },
    Join { ty: usize, cond: Ex, post: Option<Ex>, emit: Vec<usize> },
    Cross { emit: Vec<usize> },
    Set { op: usize, emit: Vec<usize> },
    Ext { kind: usize, inv: Inv },
}
#[derive(Clone, Debug, PartialEq)]
pub struct MRel {
    pub op: Op,
    pub kids: Vec<MRel>,
    pub enh: Option<Inv>,
    pub opts: Vec<Inv>,
}

pub const SORT_DIRS: [&str; 4] = ["AscNullsFirst", "AscNullsLast", "DescNullsFirst", "DescNullsLast"];
pub const JOINS: [&str; 12] = [
    "Inner", "Outer", "Left", "Right", "LeftSemi", "RightSemi", "LeftAnti", "RightAnti", "LeftSingle", "RightSingle",
    "LeftMark", "RightMark",
];
pub const SETS: [&str; 8] = [
    "MinusPrimary",
    "MinusPrimaryAll",
    "MinusMultiset",
    "IntersectionPrimary",
    "IntersectionMultiset",
    "IntersectionMultisetAll",
    "UnionDistinct",
    "UnionAll",
];
pub const EXT_KINDS: [&str; 3] = ["ExtensionLeaf", "ExtensionSingle", "ExtensionMulti"];

pub fn join_enum(i: usize) -> i32 {
    use p::join_rel::JoinType::*;
    [Inner, Outer, Left, Right, LeftSemi, RightSemi, LeftAnti, RightAnti, LeftSingle, RightSingle, LeftMark, RightMark][i]
        as i32
}
fn set_enum(i: usize) -> i32 {
    use p::set_rel::SetOp::*;
    [
        MinusPrimary,
        MinusPrimaryAll,
        MinusMultiset,
        IntersectionPrimary,
        IntersectionMultiset,
        IntersectionMultisetAll,
        UnionDistinct,
        UnionAll,
    ][i] as i32
}
fn sort_enum(i: usize) -> i32 {
    use p::sort_field::SortDirection::*;
    [AscNullsFirst, AscNullsLast, DescNullsFirst, DescNullsLast][i] as i32
}

/// Output width of a join by type.
pub fn join_width(ty: usize, l: usize, r: usize) -> usize {
    match JOINS[ty] {
        "Inner" | "Outer" | "Left" | "Right" => l + r,
        "LeftSemi" | "LeftAnti" | "LeftSingle" => l,
        "RightSemi" | "RightAnti" | "RightSingle" => r,
        "LeftMark" => l + 1,
        _ => r + 1,
    }
}

impl MRel {
    pub fn leafish(op: Op) -> MRel {
        MRel { op, kids: vec![], enh: None, opts: vec![] }
    }
    pub fn input_width(&self) -> usize {
        self.kids.iter().map(|k| k.width()).sum()
    }
    /// Number of direct (pre-emit) output columns.
    pub fn direct(&self) -> usize {
        match &self.op {
            Op::Read { cols, .. } | Op::Virt { cols, .. } | Op::RExt { cols, .. } => cols.len(),
            Op::Filter { .. } | Op::Sort { .. } | Op::Fetch { .. } | Op::Cross { .. } => self.input_width(),
            Op::Project { outs } => {
                self.input_width() + outs.iter().filter(|o| matches!(o, POut::Ex(_))).count()
            }
            Op::Agg { g, outs, .. } => g.len() + outs.iter().filter(|o| matches!(o, AOut::M(_))).count(),
            Op::Join { ty, .. } => join_width(*ty, self.kids[0].width(), self.kids[1].width()),
            Op::Set { .. } => self.kids[0].width(),
            Op::Ext { inv, .. } => inv.cols.len(),
        }
    }
    /// Number of columns the relation emits.
    pub fn width(&self) -> usize {
        match &self.op {
            Op::Read { cols, emit, .. } => emit.as_ref().map_or(cols.len(), |e| e.len()),
            Op::Virt { cols, .. } | Op::RExt { cols, .. } => cols.len(),
            Op::Filter { emit, .. }
            | Op::Sort { emit, .. }
            | Op::Fetch { emit, .. }
            | Op::Cross { emit }
            | Op::Set { emit, .. }
            | Op::Join { emit, .. } => emit.len(),
            Op::Project { outs } => outs.len(),
            Op::Agg { outs, .. } => outs.len(),
            Op::Ext { inv, .. } => inv.cols.len(),
        }
    }
    pub fn count(&self) -> usize {
        1 + self.kids.iter().map(|k| k.count()).sum::<usize>()
    }
    pub fn walk<'a>(&'a self, f: &mut dyn FnMut(&'a MRel)) {
        f(self);
        for k in &self.kids {
            k.walk(f);
        }
    }
    /// Emit mapping over the direct columns, in canonical numbering.
    pub fn mapping(&self) -> Vec<i32> {
        match &self.op {
            Op::Read { cols, emit, .. } => match emit {
                Some(e) => e.iter().map(|&x| x as i32).collect(),
                None => (0..cols.len() as i32).collect(),
            },
            Op::Virt { cols, .. } | Op::RExt { cols, .. } => (0..cols.len() as i32).collect(),
            Op::Filter { emit, .. }
            | Op::Sort { emit, .. }
            | Op::Fetch { emit, .. }
            | Op::Cross { emit }
            | Op::Set { emit, .. }
            | Op::Join { emit, .. } => emit.iter().map(|&x| x as i32).collect(),
            Op::Project { outs } => {
                let mut next = self.input_width() as i32;
                outs.iter()
                    .map(|o| match o {
                        POut::Ref(i) => *i as i32,
                        POut::Ex(_) => {
                            next += 1;
                            next - 1
                        }
                    })
                    .collect()
            }
            Op::Agg { g, outs, .. } => {
                let mut next = g.len() as i32;
                outs.iter()
                    .map(|o| match o {
                        AOut::G(i) => *i as i32,
                        AOut::M(_) => {
                            next += 1;
                            next - 1
                        }
                    })
                    .collect()
            }
            Op::Ext { inv, .. } => (0..inv.cols.len() as i32).collect(),
        }
    }
    pub fn is_identity(&self) -> bool {
        let m = self.mapping();
        m.len() == self.direct() && m.iter().enumerate().all(|(i, &x)| i as i32 == x)
    }
    pub fn kind(&self) -> &'static str {
        match &self.op {
            Op::Read { emit: None, .. } => "Read",
            Op::Read { .. } => "ReadEmit",
            Op::Virt { .. } => "Read:Virtual",
            Op::RExt { .. } => "Read:Extension",
            Op::Filter { .. } => "Filter",
            Op::Project { .. } => "Project",
            Op::Agg { .. } => "Aggregate",
            Op::Sort { .. } => "Sort",
            Op::Fetch { .. } => "Fetch",
            Op::Join { ty, .. } => JOINS[*ty],
            Op::Cross { .. } => "Cross",
            Op::Set { op, .. } => SETS[*op],
            Op::Ext { kind, .. } => EXT_KINDS[*kind],
        }
    }
}

#[derive(Clone, Debug, PartialEq)]
pub struct Decl {
    pub anchor: u32,
    pub urn: u32,
    pub name: String,
}
#[derive(Clone, Debug, PartialEq, Default)]
pub struct Decls {
    pub urns: Vec<(u32, String)>,
    pub funcs: Vec<Decl>,
    pub types: Vec<Decl>,
    pub tvars: Vec<Decl>,
}
pub fn base_of(name: &str) -> &str {
    name.split(':').next().unwrap()
}
impl Decls {
    pub fn is_empty(&self) -> bool {
        self.urns.is_empty() && self.funcs.is_empty() && self.types.is_empty() && self.tvars.is_empty()
    }
    pub fn func(&self, a: u32) -> Option<&Decl> {
        self.funcs.iter().find(|d| d.anchor == a)
    }
    pub fn typ(&self, a: u32) -> Option<&Decl> {
        self.types.iter().find(|d| d.anchor == a)
    }
    pub fn base_count(&self, base: &str) -> usize {
        self.funcs.iter().filter(|d| base_of(&d.name) == base).count()
    }
    pub fn full_count(&self, full: &str) -> usize {
        self.funcs.iter().filter(|d| d.name == full).count()
    }
    pub fn type_count(&self, name: &str) -> usize {
        self.types.iter().filter(|d| d.name == name).count()
    }
    pub fn sort(&mut self) {
        self.urns.sort_by_key(|u| u.0);
        self.funcs.sort_by_key(|u| u.anchor);
        self.types.sort_by_key(|u| u.anchor);
        self.tvars.sort_by_key(|u| u.anchor);
    }
}

#[derive(Clone, Debug, PartialEq)]
pub struct MVersion {
    pub major: u32,
    pub minor: u32,
    pub patch: u32,
    pub producer: String,
    pub git: String,
}
#[derive(Clone, Debug, PartialEq)]
pub struct MTree {
    pub root: Option<Vec<String>>,
    pub rel: MRel,
}
#[derive(Clone, Debug, PartialEq)]
pub struct MPlan {
    pub version: Option<MVersion>,
    pub decls: Decls,
    pub trees: Vec<MTree>,
}
impl MPlan {
    pub fn rels(&self) -> usize {
        self.trees.iter().map(|t| t.rel.count()).sum()
    }
    pub fn walk<'a>(&'a self, f: &mut dyn FnMut(&'a MRel)) {
        for t in &self.trees {
            t.rel.walk(f);
        }
    }
}

// ---------------------------------------------------------------- protobuf

/// How to encode: canonical (what the parser must produce) or a random equivalent variant.
pub struct Enc {
    pub vary: Option<Rng>,
}
impl Enc {
    pub fn canon() -> Enc {
        Enc { vary: None }
    }
    pub fn vary(rng: Rng) -> Enc {
        Enc { vary: Some(rng) }
    }
    fn v(&mut self, num: usize, den: usize) -> bool {
        self.vary.as_mut().is_some_and(|r| r.chance(num, den))
    }

    pub fn ty(&mut self, t: &Ty) -> p::Type {
        use p::r#type as ty;
        use p::r#type::Kind as K;
        let nullability = if t.n { ty::Nullability::Nullable } else { ty::Nullability::Required } as i32;
        macro_rules! s {
            ($k:ident, $s:ident) => {
                K::$k(ty::$s { type_variation_reference: 0, nullability })
            };
        }
        #[allow(deprecated)]
        let kind = match &t.k {
            TyK::Simple(i) => match SIMPLE[*i] {
                "boolean" => s!(Bool, Boolean),
                "i8" => s!(I8, I8),
                "i16" => s!(I16, I16),
                "i32" => s!(I32, I32),
                "i64" => s!(I64, I64),
                "fp32" => s!(Fp32, Fp32),
                "fp64" => s!(Fp64, Fp64),
                "string" => s!(String, String),
                "binary" => s!(Binary, Binary),
                "timestamp_tz" => s!(TimestampTz, TimestampTz),
                "timestamp" => s!(Timestamp, Timestamp),
                "date" => s!(Date, Date),
                "time" => s!(Time, Time),
                "interval_year" => s!(IntervalYear, IntervalYear),
                "uuid" => s!(Uuid, Uuid),
                _ => unreachable!(),
            },
            TyK::PTs(p) => K::PrecisionTimestamp(ty::PrecisionTimestamp { precision: *p, nullability, type_variation_reference: 0 }),
            TyK::PTsTz(p) => {
                K::PrecisionTimestampTz(ty::PrecisionTimestampTz { precision: *p, nullability, type_variation_reference: 0 })
            }
            TyK::PTime(p) => K::PrecisionTime(ty::PrecisionTime { precision: *p, nullability, type_variation_reference: 0 }),
            TyK::IvDay(p) => {
                let precision = if *p == 6 && self.v(1, 4) { None } else { Some(*p) };
                K::IntervalDay(ty::IntervalDay { type_variation_reference: 0, nullability, precision })
            }
            TyK::List(e) => {
                let e = self.ty(e);
                K::List(Box::new(ty::List { r#type: Some(Box::new(e)), type_variation_reference: 0, nullability }))
            }
            TyK::User(a, ps) => {
                if ps.is_empty() && !t.n && self.v(1, 6) {
                    K::UserDefinedTypeReference(*a)
                } else {
                    let ps = ps
                        .iter()
                        .map(|x| ty::Parameter { parameter: Some(ty::parameter::Parameter::DataType(self.ty(x))) })
                        .collect();
                    K::UserDefined(ty::UserDefined {
                        type_reference: *a,
                        type_variation_reference: 0,
                        nullability,
                        type_parameters: ps,
                    })
                }
            }
        };
        p::Type { kind: Some(kind) }
    }

    pub fn lit(&mut self, l: &Lit) -> p::expression::Literal {
        use p::expression::literal as li;
        use p::expression::literal::LiteralType as L;
        let mut nullable = l.n;
        #[allow(deprecated)]
        let v = match &l.v {
            LitV::Bool(b) => L::Boolean(*b),
            LitV::I8(i) => L::I8(*i),
            LitV::I16(i) => L::I16(*i),
            LitV::I32(i) => L::I32(*i),
            LitV::I64(i) => L::I64(*i),
            LitV::F32(f) => L::Fp32(*f),
            LitV::F64(f) => L::Fp64(*f),
            LitV::Str(s) => L::String(s.clone()),
            LitV::Date(d) => L::Date(*d),
            LitV::Time(t) => L::Time(*t),
            LitV::Ts(t) => L::Timestamp(*t),
            LitV::PTime(p, v) => L::PrecisionTime(li::PrecisionTime { precision: *p, value: *v }),
            LitV::PTs(p, v) => L::PrecisionTimestamp(li::PrecisionTimestamp { precision: *p, value: *v }),
            LitV::PTsTz(p, v) => L::PrecisionTimestampTz(li::PrecisionTimestamp { precision: *p, value: *v }),
            LitV::IvDay { p, days, secs, sub } => {
                use li::interval_day_to_second::PrecisionMode as M;
                let (mode, sub) = if *p == 6 && self.v(1, 4) {
                    if i32::try_from(*sub).is_ok() && self.v(1, 2) {
                        (Some(M::Microseconds(*sub as i32)), 0)
                    } else {
                        (None, *sub)
                    }
                } else {
                    (Some(M::Precision(*p)), *sub)
                };
                L::IntervalDayToSecond(li::IntervalDayToSecond {
                    days: *days,
                    seconds: *secs,
                    subseconds: sub,
                    precision_mode: mode,
                })
            }
            LitV::Null(t) => {
                nullable = self.v(1, 3);
                L::Null(self.ty(t))
            }
        };
        p::expression::Literal { nullable, type_variation_reference: 0, literal_type: Some(v) }
    }

    pub fn fref(i: i32) -> p::Expression {
        use p::expression as e;
        p::Expression {
            rex_type: Some(e::RexType::Selection(Box::new(e::FieldReference {
                reference_type: Some(e::field_reference::ReferenceType::DirectReference(e::ReferenceSegment {
                    reference_type: Some(e::reference_segment::ReferenceType::StructField(Box::new(
                        e::reference_segment::StructField { field: i, child: None },
                    ))),
                })),
                root_type: Some(e::field_reference::RootType::RootReference(e::field_reference::RootReference {})),
            }))),
        }
    }

    pub fn args(&mut self, args: &[Ex]) -> Vec<p::FunctionArgument> {
        args.iter()
            .map(|a| p::FunctionArgument { arg_type: Some(p::function_argument::ArgType::Value(self.ex(a))) })
            .collect()
    }

    pub fn ex(&mut self, e: &Ex) -> p::Expression {
        use p::expression as pe;
        let rex = match e {
            Ex::Ref(i) => return Enc::fref(*i),
            Ex::Lit(l) => pe::RexType::Literal(self.lit(l)),
            #[allow(deprecated)]
            Ex::Call(f, args, t) => pe::RexType::ScalarFunction(pe::ScalarFunction {
                function_reference: *f,
                arguments: self.args(args),
                options: vec![],
                output_type: Some(self.ty(t)),
                args: vec![],
            }),
            Ex::Cast(x, t, fb) => pe::RexType::Cast(Box::new(pe::Cast {
                r#type: Some(self.ty(t)),
                input: Some(Box::new(self.ex(x))),
                failure_behavior: *fb as i32,
            })),
            Ex::If(cs, els) => pe::RexType::IfThen(Box::new(pe::IfThen {
                ifs: cs
                    .iter()
                    .map(|(a, b)| pe::if_then::IfClause { r#if: Some(self.ex(a)), then: Some(self.ex(b)) })
                    .collect(),
                r#else: Some(Box::new(self.ex(els))),
            })),
        };
        p::Expression { rex_type: Some(rex) }
    }

    fn schema(&mut self, cols: &Cols) -> p::NamedStruct {
        p::NamedStruct {
            names: cols.iter().map(|c| c.0.clone()).collect(),
            r#struct: Some(p::r#type::Struct {
                types: cols.iter().map(|c| self.ty(&c.1)).collect(),
                type_variation_reference: 0,
                nullability: p::r#type::Nullability::Required as i32,
            }),
        }
    }

    fn common(&mut self, mapping: Vec<i32>, direct: usize, read: bool) -> Option<p::RelCommon> {
        use p::rel_common as rc;
        let identity = mapping.len() == direct && mapping.iter().enumerate().all(|(i, &x)| x == i as i32);
        let kind = if identity {
            if self.v(1, 2) {
                let r = self.vary.as_mut().unwrap();
                match r.below(if read { 2 } else { 3 }) {
                    0 => return None,
                    1 => return Some(p::RelCommon::default()),
                    _ => rc::EmitKind::Emit(rc::Emit { output_mapping: mapping }),
                }
            } else {
                rc::EmitKind::Direct(rc::Direct {})
            }
        } else {
            rc::EmitKind::Emit(rc::Emit { output_mapping: mapping })
        };
        Some(p::RelCommon { emit_kind: Some(kind), ..Default::default() })
    }

    pub fn adv(&mut self, r: &MRel) -> Option<p::extensions::AdvancedExtension> {
        if r.enh.is_none() && r.opts.is_empty() {
            if self.v(1, 10) {
                return Some(Default::default());
            }
            return None;
        }
        Some(p::extensions::AdvancedExtension {
            enhancement: r.enh.as_ref().map(|i| crate::ext::to_any(i, 2, self)),
            optimization: r.opts.iter().map(|i| crate::ext::to_any(i, 3, self)).collect(),
        })
    }

    pub fn rel(&mut self, r: &MRel) -> p::Rel {
        use p::rel::RelType as R;
        let mapping = r.mapping();
        let direct = r.direct();
        let adv = self.adv(r);
        let kids: Vec<p::Rel> = r.kids.iter().map(|k| self.rel(k)).collect();
        let mut kids = kids.into_iter();
        let mut kid = || kids.next().map(Box::new);
        let rt = match &r.op {
            Op::Read { table, cols, emit } => {
                let common = match emit {
                    None => self.common(mapping, direct, true),
                    Some(_) => Some(p::RelCommon {
                        emit_kind: Some(p::rel_common::EmitKind::Emit(p::rel_common::Emit { output_mapping: mapping })),
                        ..Default::default()
                    }),
                };
                R::Read(Box::new(p::ReadRel {
                    common,
                    base_schema: Some(self.schema(cols)),
                    read_type: Some(p::read_rel::ReadType::NamedTable(p::read_rel::NamedTable {
                        names: table.clone(),
                        advanced_extension: None,
                    })),
                    advanced_extension: adv,
                    ..Default::default()
                }))
            }
            Op::Virt { rows, cols, filter } => {
                let common = self.common(mapping, direct, true);
                R::Read(Box::new(p::ReadRel {
                    common,
                    base_schema: Some(self.schema(cols)),
                    read_type: Some(p::read_rel::ReadType::VirtualTable(p::read_rel::VirtualTable {
                        expressions: rows
                            .iter()
                            .map(|row| p::expression::nested::Struct { fields: row.iter().map(|e| self.ex(e)).collect() })
                            .collect(),
                        ..Default::default()
                    })),
                    filter: filter.as_ref().map(|f| Box::new(self.ex(f))),
                    advanced_extension: adv,
                    ..Default::default()
                }))
            }
            Op::RExt { cols, inv } => {
                let common = self.common(mapping, direct, true);
                R::Read(Box::new(p::ReadRel {
                    common,
                    base_schema: Some(self.schema(cols)),
                    read_type: Some(p::read_rel::ReadType::ExtensionTable(p::read_rel::ExtensionTable {
                        detail: Some(crate::ext::to_any(inv, 1, self)),
                    })),
                    advanced_extension: adv,
                    ..Default::default()
                }))
            }
            Op::Filter { cond, .. } => R::Filter(Box::new(p::FilterRel {
                common: self.common(mapping, direct, false),
                input: kid(),
                condition: Some(Box::new(self.ex(cond))),
                advanced_extension: adv,
            })),
            Op::Project { outs } => self.project(r, outs, kid(), adv),
            Op::Agg { g, sets, outs } => self.aggregate(r, g, sets, outs, kid(), adv),
            Op::Sort { fields, .. } => R::Sort(Box::new(p::SortRel {
                common: self.common(mapping, direct, false),
                input: kid(),
                sorts: fields
                    .iter()
                    .map(|(e, d)| p::SortField {
                        expr: Some(self.ex(e)),
                        sort_kind: Some(p::sort_field::SortKind::Direction(sort_enum(*d))),
                    })
                    .collect(),
                advanced_extension: adv,
            })),
            Op::Fetch { limit, offset, .. } => {
                use p::fetch_rel::{CountMode, OffsetMode};
                let plain = |e: &Ex| match e {
                    Ex::Lit(Lit { v: LitV::I64(i), n: false }) => Some(*i),
                    _ => None,
                };
                #[allow(deprecated)]
                let count_mode = limit.as_ref().map(|e| match plain(e) {
                    Some(i) if self.v(1, 3) => CountMode::Count(i),
                    _ => CountMode::CountExpr(Box::new(self.ex(e))),
                });
                #[allow(deprecated)]
                let offset_mode = offset.as_ref().map(|e| match plain(e) {
                    Some(i) if self.v(1, 3) => OffsetMode::Offset(i),
                    _ => OffsetMode::OffsetExpr(Box::new(self.ex(e))),
                });
                R::Fetch(Box::new(p::FetchRel {
                    common: self.common(mapping, direct, false),
                    input: kid(),
                    advanced_extension: adv,
                    offset_mode,
                    count_mode,
                }))
            }
            Op::Join { ty, cond, post, .. } => R::Join(Box::new(p::JoinRel {
                // The text form of a semi, anti, single or mark join always has an explicit mapping.
                common: if self.vary.is_none() && *ty >= 4 {
                    Some(p::RelCommon {
                        emit_kind: Some(p::rel_common::EmitKind::Emit(p::rel_common::Emit { output_mapping: mapping })),
                        ..Default::default()
                    })
                } else {
                    self.common(mapping, direct, false)
                },
                left: kid(),
                right: kid(),
                expression: Some(Box::new(self.ex(cond))),
                post_join_filter: post.as_ref().map(|e| Box::new(self.ex(e))),
                r#type: join_enum(*ty),
                advanced_extension: adv,
            })),
            Op::Cross { .. } => R::Cross(Box::new(p::CrossRel {
                common: self.common(mapping, direct, false),
                left: kid(),
                right: kid(),
                advanced_extension: adv,
            })),
            Op::Set { op, .. } => R::Set(p::SetRel {
                common: self.common(mapping, direct, false),
                inputs: kids.collect(),
                op: set_enum(*op),
                advanced_extension: adv,
            }),
            Op::Ext { kind, inv } => {
                let detail = Some(crate::ext::to_any(inv, 0, self));
                let common = if self.v(1, 3) {
                    None
                } else {
                    Some(p::RelCommon {
                        emit_kind: Some(p::rel_common::EmitKind::Direct(Default::default())),
                        ..Default::default()
                    })
                };
                match kind {
                    0 => R::ExtensionLeaf(p::ExtensionLeafRel { common, detail }),
                    1 => R::ExtensionSingle(Box::new(p::ExtensionSingleRel { common, input: kid(), detail })),
                    _ => R::ExtensionMulti(p::ExtensionMultiRel { common, inputs: kids.collect(), detail }),
                }
            }
        };
        p::Rel { rel_type: Some(rt) }
    }

    fn project(
        &mut self,
        r: &MRel,
        outs: &[POut],
        input: Option<Box<p::Rel>>,
        adv: Option<p::extensions::AdvancedExtension>,
    ) -> p::rel::RelType {
        let w = r.input_width();
        let mut exprs: Vec<p::Expression> = vec![];
        let mut map: Vec<i32> = vec![];
        if self.v(1, 2) {
            // Variant: hidden, shared and reordered computed columns, references as expressions.
            let mut slots: Vec<(usize, p::Expression)> = vec![];
            let mut known: Vec<(Ex, usize)> = vec![];
            let mut want: Vec<Result<i32, usize>> = vec![];
            let hide = self.v(1, 2);
            for o in outs {
                match o {
                    POut::Ref(i) => {
                        if self.v(1, 4) {
                            slots.push((slots.len(), Enc::fref(*i as i32)));
                            want.push(Err(slots.len() - 1));
                        } else {
                            want.push(Ok(*i as i32));
                        }
                    }
                    POut::Ex(e) => {
                        let found = known.iter().find(|(k, _)| k == e && e_eq(k, e)).map(|k| k.1);
                        match found {
                            Some(s) if self.v(2, 3) => want.push(Err(s)),
                            _ => {
                                let pe = self.ex(e);
                                slots.push((slots.len(), pe));
                                known.push((e.clone(), slots.len() - 1));
                                want.push(Err(slots.len() - 1));
                            }
                        }
                    }
                }
                if hide && self.v(1, 3) {
                    slots.push((slots.len(), Enc::fref(0)));
                }
            }
            if self.v(1, 2) {
                self.vary.as_mut().unwrap().shuffle(&mut slots);
            }
            let mut at = vec![0usize; slots.len()];
            for (pos, (id, _)) in slots.iter().enumerate() {
                at[*id] = pos;
            }
            for x in want {
                map.push(match x {
                    Ok(i) => i,
                    Err(s) => (w + at[s]) as i32,
                });
            }
            exprs = slots.into_iter().map(|s| s.1).collect();
        } else {
            for o in outs {
                match o {
                    POut::Ref(i) => map.push(*i as i32),
                    POut::Ex(e) => {
                        let pe = self.ex(e);
                        exprs.push(pe);
                        map.push((w + exprs.len() - 1) as i32);
                    }
                }
            }
        }
        let direct = w + exprs.len();
        p::rel::RelType::Project(Box::new(p::ProjectRel {
            common: self.common(map, direct, false),
            input,
            expressions: exprs,
            advanced_extension: adv,
        }))
    }

    fn measure(&mut self, e: &Ex) -> p::aggregate_rel::Measure {
        let Ex::Call(f, args, t) = e else { unreachable!() };
        #[allow(deprecated)]
        let m = p::AggregateFunction {
            function_reference: *f,
            arguments: self.args(args),
            output_type: Some(self.ty(t)),
            ..Default::default()
        };
        p::aggregate_rel::Measure { measure: Some(m), filter: None }
    }

    fn aggregate(
        &mut self,
        _r: &MRel,
        g: &[Ex],
        sets: &[Vec<usize>],
        outs: &[AOut],
        input: Option<Box<p::Rel>>,
        adv: Option<p::extensions::AdvancedExtension>,
    ) -> p::rel::RelType {
        use p::aggregate_rel::Grouping;
        // Grouping expressions, possibly permuted.
        let mut order: Vec<usize> = (0..g.len()).collect();
        let deprecated_form = !g.is_empty() && self.v(1, 4);
        if !deprecated_form && self.v(1, 3) {
            self.vary.as_mut().unwrap().shuffle(&mut order);
        }
        let mut at = vec![0usize; g.len()];
        for (pos, id) in order.iter().enumerate() {
            at[*id] = pos;
        }
        let gp: Vec<p::Expression> = g.iter().map(|e| self.ex(e)).collect();
        let grouping_expressions: Vec<p::Expression> =
            if deprecated_form { vec![] } else { order.iter().map(|&i| gp[i].clone()).collect() };
        #[allow(deprecated)]
        let mut groupings: Vec<Grouping> = sets
            .iter()
            .map(|s| {
                if deprecated_form {
                    Grouping {
                        grouping_expressions: s.iter().map(|&i| gp[i].clone()).collect(),
                        expression_references: vec![],
                    }
                } else {
                    Grouping {
                        grouping_expressions: vec![],
                        expression_references: s.iter().map(|&i| at[i] as u32).collect(),
                    }
                }
            })
            .collect();
        if g.is_empty() && sets.len() == 1 && self.v(1, 3) {
            groupings = vec![];
        }
        // Measures, possibly hidden, shared or permuted.
        let vary = self.v(1, 2);
        let mut slots: Vec<(usize, p::aggregate_rel::Measure)> = vec![];
        let mut known: Vec<(Ex, usize)> = vec![];
        let mut want: Vec<Result<usize, usize>> = vec![];
        for o in outs {
            match o {
                AOut::G(i) => want.push(Ok(at[*i])),
                AOut::M(e) => {
                    let found = known.iter().find(|(k, _)| k == e && e_eq(k, e)).map(|k| k.1);
                    match found {
                        Some(s) if vary && self.v(2, 3) => want.push(Err(s)),
                        _ => {
                            let m = self.measure(e);
                            if vary && self.v(1, 3) {
                                slots.push((slots.len(), m.clone()));
                            }
                            slots.push((slots.len(), m));
                            known.push((e.clone(), slots.len() - 1));
                            want.push(Err(slots.len() - 1));
                        }
                    }
                }
            }
        }
        if vary && self.v(1, 2) {
            self.vary.as_mut().unwrap().shuffle(&mut slots);
        }
        let mut mat = vec![0usize; slots.len()];
        for (pos, (id, _)) in slots.iter().enumerate() {
            mat[*id] = pos;
        }
        let map: Vec<i32> = want
            .into_iter()
            .map(|x| match x {
                Ok(i) => i as i32,
                Err(s) => (g.len() + mat[s]) as i32,
            })
            .collect();
        let direct = g.len() + slots.len();
        p::rel::RelType::Aggregate(Box::new(p::AggregateRel {
            common: self.common(map, direct, false),
            input,
            groupings,
            measures: slots.into_iter().map(|s| s.1).collect(),
            grouping_expressions,
            advanced_extension: adv,
        }))
    }

    pub fn plan(&mut self, m: &MPlan) -> p::Plan {
        use p::extensions as x;
        use x::simple_extension_declaration as d;
        use x::simple_extension_declaration::MappingType as M;
        let mut urns: Vec<x::SimpleExtensionUrn> = m
            .decls
            .urns
            .iter()
            .map(|(a, u)| x::SimpleExtensionUrn { extension_urn_anchor: *a, urn: u.clone() })
            .collect();
        let mut decls: Vec<(u32, u8, x::SimpleExtensionDeclaration)> = vec![];
        for f in &m.decls.funcs {
            decls.push((
                f.anchor,
                0,
                x::SimpleExtensionDeclaration {
                    mapping_type: Some(M::ExtensionFunction(d::ExtensionFunction {
                        extension_urn_reference: f.urn,
                        function_anchor: f.anchor,
                        name: f.name.clone(),
                    })),
                },
            ));
        }
        for f in &m.decls.types {
            let name = if self.v(1, 3) { format!("u!{}", f.name) } else { f.name.clone() };
            decls.push((
                f.anchor,
                1,
                x::SimpleExtensionDeclaration {
                    mapping_type: Some(M::ExtensionType(d::ExtensionType {
                        extension_urn_reference: f.urn,
                        type_anchor: f.anchor,
                        name,
                    })),
                },
            ));
        }
        for f in &m.decls.tvars {
            decls.push((
                f.anchor,
                2,
                x::SimpleExtensionDeclaration {
                    mapping_type: Some(M::ExtensionTypeVariation(d::ExtensionTypeVariation {
                        extension_urn_reference: f.urn,
                        type_variation_anchor: f.anchor,
                        name: f.name.clone(),
                    })),
                },
            ));
        }
        decls.sort_by_key(|t| (t.0, t.1));
        if let Some(r) = self.vary.as_mut() {
            r.shuffle(&mut decls);
            r.shuffle(&mut urns);
        }
        let relations = m
            .trees
            .iter()
            .map(|t| {
                let rel = self.rel(&t.rel);
                p::PlanRel {
                    rel_type: Some(match &t.root {
                        Some(names) => {
                            p::plan_rel::RelType::Root(p::RelRoot { input: Some(rel), names: names.clone() })
                        }
                        None => p::plan_rel::RelType::Rel(rel),
                    }),
                }
            })
            .collect();
        let version = match &m.version {
            Some(v) => Some(p::Version {
                major_number: v.major,
                minor_number: v.minor,
                patch_number: v.patch,
                git_hash: v.git.clone(),
                producer: v.producer.clone(),
            }),
            None => {
                if self.v(1, 4) {
                    Some(p::Version::default())
                } else {
                    None
                }
            }
        };
        p::Plan {
            version,
            extension_urns: urns,
            extensions: decls.into_iter().map(|t| t.2).collect(),
            relations,
            ..Default::default()
        }
    }
}

/// Structural equality that also tells -0.0 from 0.0 (PartialEq on floats does not).
pub fn e_eq(a: &Ex, b: &Ex) -> bool {
    format!("{a:?}") == format!("{b:?}")
}

// ---------------------------------------------------------------- text

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Vis {
    Never,
    Required,
    Always,
}
#[derive(Clone, Debug)]
pub struct Opts {
    pub anchors: Vis,
    pub lits: Vis,
    pub show_emit: bool,
    pub indent: String,
    pub threshold: usize,
}
impl Default for Opts {
    fn default() -> Self {
        Opts { anchors: Vis::Required, lits: Vis::Required, show_emit: false, indent: "  ".into(), threshold: 3 }
    }
}

/// Prints the model as text: canonical when `style` is none, else with random optional spellings.
pub struct Pr<'a> {
    pub d: &'a Decls,
    pub o: Opts,
    pub style: Option<Rng>,
}

pub fn is_ident(s: &str) -> bool {
    let b = s.as_bytes();
    !b.is_empty() && b[0].is_ascii_alphabetic() && b.iter().all(|c| c.is_ascii_alphanumeric() || *c == b'_')
}

/// Days since 1970-01-01 to (year, month, day), proleptic Gregorian.
pub fn civil(days: i64) -> (i64, u32, u32) {
    let mut y = 1970 + days.div_euclid(146097) * 400;
    let mut rest = days.rem_euclid(146097);
    // 1970..2370 is one full 400-year cycle starting at `y`.
    let leap = |y: i64| (y % 4 == 0 && y % 100 != 0) || y % 400 == 0;
    // skip whole years; at most 400 steps
    loop {
        let len = if leap(y) { 366 } else { 365 };
        if rest < len {
            break;
        }
        rest -= len;
        y += 1;
    }
    let months = [31, if leap(y) { 29 } else { 28 }, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31];
    let mut m = 0;
    while rest >= months[m] {
        rest -= months[m];
        m += 1;
    }
    (y, m as u32 + 1, rest as u32 + 1)
}
fn year_text(y: i64) -> String {
    if (0..=9999).contains(&y) {
        format!("{y:04}")
    } else if y > 9999 {
        format!("+{y}")
    } else {
        format!("-{:04}", -y)
    }
}
/// Fraction digits of each supported precision.
fn unit(p: i32) -> i64 {
    10i64.pow(p as u32)
}

impl<'a> Pr<'a> {
    pub fn canon(d: &'a Decls) -> Pr<'a> {
        Pr { d, o: Opts::default(), style: None }
    }
    pub fn styled(d: &'a Decls, rng: Rng) -> Pr<'a> {
        Pr { d, o: Opts::default(), style: Some(rng) }
    }
    fn ch(&mut self, num: usize, den: usize) -> bool {
        self.style.as_mut().is_some_and(|r| r.chance(num, den))
    }
    /// Optional whitespace, empty in canonical text.
    fn sp(&mut self) -> &'static str {
        match self.style.as_mut() {
            None => "",
            Some(r) => ["", "", "", " ", "  "][r.below(5)],
        }
    }
    /// Optional whitespace that canonical text writes as one space.
    fn sp1(&mut self) -> &'static str {
        match self.style.as_mut() {
            None => " ",
            Some(r) => [" ", " ", " ", "", "   "][r.below(5)],
        }
    }
    /// Comma with whitespace allowed on both sides.
    fn comma2(&mut self) -> String {
        format!("{},{}", self.sp(), self.sp1())
    }
    /// Comma with whitespace allowed after it only.
    fn comma1(&mut self) -> String {
        format!(",{}", self.sp1())
    }
    fn join2(&mut self, xs: &[String]) -> String {
        let mut s = String::new();
        for (i, x) in xs.iter().enumerate() {
            if i > 0 {
                s.push_str(&self.comma2());
            }
            s.push_str(x);
        }
        s
    }
    fn join1(&mut self, xs: &[String]) -> String {
        let mut s = String::new();
        for (i, x) in xs.iter().enumerate() {
            if i > 0 {
                s.push_str(&self.comma1());
            }
            s.push_str(x);
        }
        s
    }
    /// The grammar's expression_list: whitespace before a comma only after the first element.
    fn expr_list(&mut self, xs: &[String]) -> String {
        let mut s = String::new();
        for (i, x) in xs.iter().enumerate() {
            if i == 1 {
                s.push_str(self.sp());
            }
            if i > 0 {
                s.push_str(&self.comma1());
            }
            s.push_str(x);
        }
        s
    }

    fn esc(&mut self, s: &str, quote: char) -> String {
        match self.style.as_mut() {
            None => s.escape_debug().to_string(),
            Some(r) => {
                let mut o = String::new();
                for c in s.chars() {
                    let must = c == '\\' || c == quote || c == '\n' || c == '\r';
                    if !must && r.chance(4, 5) {
                        o.push(c);
                        continue;
                    }
                    match c {
                        '\n' if r.coin() => o.push_str("\\n"),
                        '\r' if r.coin() => o.push_str("\\r"),
                        '\t' if r.coin() => o.push_str("\\t"),
                        '\0' if r.coin() => o.push_str("\\0"),
                        '\\' | '\'' | '"' if r.chance(3, 4) => {
                            o.push('\\');
                            o.push(c);
                        }
                        _ => o.push_str(&format!("\\u{{{:x}}}", c as u32)),
                    }
                }
                o
            }
        }
    }
    pub fn name(&mut self, s: &str) -> String {
        if is_ident(s) && !self.ch(1, 10) { s.to_string() } else { format!("\"{}\"", self.esc(s, '"')) }
    }
    fn strlit(&mut self, s: &str) -> String {
        format!("'{}'", self.esc(s, '\''))
    }

    fn case(&mut self, s: &str) -> String {
        if !self.ch(1, 4) {
            return s.to_string();
        }
        match self.style.as_mut() {
            Some(r) => {
                s.chars().map(|c| if r.coin() { c.to_ascii_uppercase() } else { c }).collect()
            }
            _ => s.to_string(),
        }
    }

    pub fn ty(&mut self, t: &Ty) -> String {
        let n = if t.n { "?" } else { "" };
        match &t.k {
            TyK::Simple(i) => format!("{}{n}", SIMPLE[*i]),
            TyK::PTs(p) => format!("{}{n}<{p}>", self.case("precisiontimestamp")),
            TyK::PTsTz(p) => format!("{}{n}<{p}>", self.case("precisiontimestamptz")),
            TyK::PTime(p) => format!("{}{n}<{p}>", self.case("precisiontime")),
            TyK::IvDay(p) => format!("{}{n}<{p}>", self.case("interval_day")),
            TyK::List(e) => {
                let e = self.ty(e);
                format!("{}{n}<{e}>", self.case("list"))
            }
            TyK::User(a, ps) => {
                let mut s = self.type_ref(*a);
                s.push_str(n);
                if !ps.is_empty() {
                    let ps: Vec<String> = ps.iter().map(|x| self.ty(x)).collect();
                    s.push_str(&format!("<{}>", self.join1(&ps)));
                }
                s
            }
        }
    }

    pub fn type_ref(&mut self, a: u32) -> String {
        let decl = self.d.typ(a).expect("declared type").clone();
        let unique = self.d.type_count(&decl.name) == 1;
        let mut s = String::new();
        // (A name that a built-in type has, too, needs the prefix.)
        if crate::genr::built_in(&decl.name) || self.ch(1, 6) {
            s.push_str("u!");
        }
        s.push_str(&decl.name);
        let anchor = match self.o.anchors {
            Vis::Always => true,
            Vis::Never => false,
            Vis::Required => !unique || self.ch(1, 4),
        };
        if anchor {
            s.push_str(&format!("#{}{a}", self.sp()));
        }
        if self.ch(1, 6) {
            s.push_str(&format!("@{}{}", self.sp(), decl.urn));
        }
        s
    }

    pub fn func_ref(&mut self, a: u32) -> String {
        let decl = self.d.func(a).expect("declared function").clone();
        let base = base_of(&decl.name).to_string();
        let has_sig = decl.name.contains(':');
        let base_unique = self.d.base_count(&base) == 1;
        let full_unique = self.d.full_count(&decl.name) == 1;
        let (mut full, mut anchor) = match self.o.anchors {
            Vis::Always => (true, true),
            Vis::Never => (false, false),
            Vis::Required => (!base_unique, !full_unique || (!has_sig && !base_unique)),
        };
        let mut urn = false;
        if self.style.is_some() {
            if self.ch(1, 3) {
                full = true;
            }
            if self.ch(1, 4) {
                anchor = true;
            }
            if anchor && self.ch(1, 3) {
                full = false; // an anchor may carry just the base name
            }
            urn = self.ch(1, 6);
        }
        let mut s = if full { decl.name.clone() } else { base };
        if anchor {
            s.push_str(&format!("{}#{}{a}", self.sp(), self.sp()));
        }
        if urn {
            s.push_str(&format!("{}@{}{}", self.sp(), self.sp(), decl.urn));
        }
        s
    }

    fn frac(&mut self, sub: i64, p: i32) -> String {
        if p == 0 {
            return String::new();
        }
        let full = format!("{:0w$}", sub, w = p as usize);
        let mut s = full.as_str();
        if self.ch(1, 2) {
            s = s.trim_end_matches('0');
            if s.is_empty() {
                return if self.ch(1, 2) { ".0".into() } else { String::new() };
            }
        }
        format!(".{s}")
    }
    fn date_text(&mut self, days: i64, sep: &str) -> String {
        let (y, m, d) = civil(days);
        format!("{}{sep}{m:02}{sep}{d:02}", year_text(y))
    }
    fn time_text(&mut self, v: i64, p: i32) -> String {
        let secs = v.div_euclid(unit(p));
        let sub = v.rem_euclid(unit(p));
        let f = self.frac(sub, p);
        format!("{:02}:{:02}:{:02}{f}", secs / 3600, secs / 60 % 60, secs % 60)
    }
    fn ts_text(&mut self, v: i64, p: i32) -> String {
        let day = 86400i64 * unit(p).min(i64::MAX / 86400);
        let days = v.div_euclid(day);
        let rest = v.rem_euclid(day);
        let sep = if self.ch(1, 4) { "/" } else { "-" };
        let t = if self.ch(1, 3) { " " } else { "T" };
        let d = self.date_text(days, sep);
        let tt = self.time_text(rest, p);
        format!("{d}{t}{tt}")
    }
    pub fn float_text(&mut self, s: String) -> String {
        let mut s = s;
        if !s.contains('.') {
            s.push_str(".0");
        }
        if self.ch(1, 6) {
            s.push_str("00");
        }
        s
    }
    fn int_text(&mut self, i: i64) -> String {
        if self.ch(1, 12) {
            if i < 0 { format!("-00{}", i.unsigned_abs()) } else { format!("0{i}") }
        } else {
            i.to_string()
        }
    }

    pub fn lit(&mut self, l: &Lit) -> String {
        let (value, ty, default): (String, String, bool) = match &l.v {
            LitV::Bool(b) => (b.to_string(), "boolean".into(), true),
            LitV::I8(i) => (self.int_text(*i as i64), "i8".into(), false),
            LitV::I16(i) => (self.int_text(*i as i64), "i16".into(), false),
            LitV::I32(i) => (self.int_text(*i as i64), "i32".into(), false),
            LitV::I64(i) => (self.int_text(*i), "i64".into(), true),
            LitV::F32(f) => (self.float_text(format!("{f}")), "fp32".into(), false),
            LitV::F64(f) => (self.float_text(format!("{f}")), "fp64".into(), true),
            LitV::Str(s) => (self.strlit(s), "string".into(), true),
            LitV::Date(d) => {
                let sep = if self.ch(1, 3) { "/" } else { "-" };
                (format!("'{}'", self.date_text(*d as i64, sep)), "date".into(), false)
            }
            LitV::Time(t) => (format!("'{}'", self.time_text(*t, 6)), "time".into(), false),
            LitV::Ts(t) => (format!("'{}'", self.ts_text(*t, 6)), "timestamp".into(), false),
            LitV::PTime(p, v) => (format!("'{}'", self.time_text(*v, *p)), format!("precisiontime|<{p}>"), false),
            LitV::PTs(p, v) => (format!("'{}'", self.ts_text(*v, *p)), format!("precisiontimestamp|<{p}>"), false),
            LitV::PTsTz(p, v) => (format!("'{}'", self.ts_text(*v, *p)), format!("precisiontimestamptz|<{p}>"), false),
            LitV::IvDay { p, days, secs, sub } => {
                let mut parts = vec![];
                if *days != 0 || self.ch(1, 6) {
                    parts.push(format!("{days}d"));
                }
                if *secs != 0 || self.ch(1, 6) {
                    parts.push(format!("{secs}s"));
                }
                if *sub != 0 {
                    let u = match p {
                        3 => "ms",
                        6 => "us",
                        9 => "ns",
                        _ => "ps",
                    };
                    parts.push(format!("{sub}{u}"));
                }
                if parts.is_empty() {
                    parts.push("0s".into());
                }
                (format!("'{}'", parts.join(" ")), format!("interval_day|<{p}>"), false)
            }
            LitV::Null(t) => {
                let sp = self.sp();
                return format!("null:{sp}{}", self.ty(t));
            }
        };
        let suffix = match self.o.lits {
            Vis::Never => false,
            Vis::Always => true,
            Vis::Required => l.n || !default || self.ch(1, 6),
        };
        if !suffix {
            return value;
        }
        let n = if l.n { "?" } else { "" };
        let sp = self.sp();
        match ty.split_once('|') {
            Some((a, b)) => format!("{value}:{sp}{}{n}{b}", self.case(a)),
            None => format!("{value}:{sp}{ty}{n}"),
        }
    }

    pub fn ex(&mut self, e: &Ex) -> String {
        match e {
            Ex::Ref(i) => format!("${i}"),
            Ex::Lit(l) => self.lit(l),
            Ex::Call(f, args, t) => {
                let name = self.func_ref(*f);
                let args: Vec<String> = args.iter().map(|a| self.ex(a)).collect();
                let args = self.join2(&args);
                let t = self.ty(t);
                format!("{name}{}({args}):{}{t}", self.sp(), self.sp())
            }
            Ex::Cast(x, t, fb) => {
                let fb = ["", "?", "!"][*fb as usize];
                let x = self.ex(x);
                let t = self.ty(t);
                format!("({}{x}{}){}::{}{fb}{}{t}", self.sp(), self.sp(), self.sp(), self.sp(), self.sp())
            }
            Ex::If(cs, els) => {
                let mut s = format!("if_then({}", self.sp());
                for (a, b) in cs {
                    let a = self.ex(a);
                    let b = self.ex(b);
                    s.push_str(&format!("{a}{}->{}{b}{}", self.sp1(), self.sp1(), self.comma2()));
                }
                let e = self.ex(els);
                s.push_str(&format!("_{}->{}{e})", self.sp1(), self.sp1()));
                s
            }
        }
    }

    pub fn arg(&mut self, a: &Arg) -> String {
        match a {
            Arg::Str(s) => self.strlit(s),
            Arg::Int(i) => self.int_text(*i),
            Arg::Float(f) => self.float_text(format!("{f}")),
            Arg::Bool(b) => b.to_string(),
            Arg::Null => "null".into(),
            Arg::Enum(e) => format!("&{e}"),
            Arg::Tuple(xs) => {
                let v: Vec<String> = xs.iter().map(|x| self.arg(x)).collect();
                let inner = self.join2(&v);
                let tail = match xs.len() {
                    0 => "".to_string(),
                    1 => format!("{},", self.sp()),
                    _ if self.ch(1, 4) => format!("{},", self.sp()),
                    _ => "".to_string(),
                };
                format!("({}{inner}{tail}{})", self.sp(), self.sp())
            }
            Arg::Ex(e) => self.ex(e),
        }
    }

    /// Positional then named arguments, `_` when there are none.
    pub fn inv_args(&mut self, inv: &Inv) -> String {
        let mut v: Vec<String> = inv.pos.iter().map(|a| self.arg(a)).collect();
        let mut named: Vec<&(String, Arg)> = inv.named.iter().collect();
        if let Some(r) = self.style.as_mut() {
            if r.chance(1, 3) {
                r.shuffle(&mut named);
            }
        }
        for (k, a) in named {
            let k = self.name(k);
            let a = self.arg(a);
            v.push(format!("{k}{}={}{a}", self.sp(), self.sp()));
        }
        if v.is_empty() { "_".into() } else { self.join2(&v) }
    }

    pub fn ecol(&mut self, c: &ECol) -> String {
        match c {
            ECol::Named(n, t) => format!("{}:{}", self.name(n), self.ty(t)),
            ECol::Ex(e) => self.ex(e),
        }
    }

    fn cols(&mut self, cols: &Cols) -> Vec<String> {
        cols.iter().map(|(n, t)| format!("{}:{}", self.name(n), self.ty(t))).collect()
    }
    fn refs(n: usize) -> Vec<String> {
        (0..n).map(|i| format!("${i}")).collect()
    }

    /// Selected output columns as text, or all direct ones under `show_emit`.
    fn outputs(&mut self, r: &MRel) -> Vec<String> {
        let direct: Vec<String> = match &r.op {
            Op::Project { outs } => {
                let mut v = Pr::refs(r.input_width());
                for o in outs {
                    if let POut::Ex(e) = o {
                        v.push(self.ex(e));
                    }
                }
                v
            }
            Op::Agg { g, outs, .. } => {
                let mut v: Vec<String> = g.iter().map(|e| self.ex(e)).collect();
                for o in outs {
                    if let AOut::M(e) = o {
                        v.push(self.ex(e));
                    }
                }
                v
            }
            _ => Pr::refs(r.direct()),
        };
        if self.o.show_emit {
            return direct;
        }
        r.mapping().into_iter().map(|i| direct[i as usize].clone()).collect()
    }

    fn arrow(&mut self) -> String {
        format!("{}=>{}", self.sp1(), self.sp1())
    }

    /// Header lines of a relation, without indentation; continuation lines follow the first.
    pub fn header(&mut self, r: &MRel) -> Vec<String> {
        let one = |s: String| vec![s];
        match &r.op {
            Op::Read { table, cols, emit } => {
                let t: Vec<String> = table.iter().map(|n| self.name(n)).collect();
                let cols = self.cols(cols);
                let cols = self.join1(&cols);
                match emit {
                    None => one(format!("Read[{}{}{cols}]", t.join("."), self.arrow())),
                    Some(m) => {
                        let m: Vec<String> = m.iter().map(|i| format!("${i}")).collect();
                        let m = self.join2(&m);
                        one(format!(
                            "Read[{}{}+>{}{cols}{}|>{}{m}]",
                            t.join("."),
                            self.sp1(),
                            self.sp1(),
                            self.sp1(),
                            self.sp1()
                        ))
                    }
                }
            }
            Op::Virt { rows, cols, filter } => {
                let rt: Vec<String> = rows
                    .iter()
                    .map(|row| {
                        let v: Vec<String> = row.iter().map(|e| self.ex(e)).collect();
                        let l = self.expr_list(&v);
                        format!("({}{l}{})", self.sp(), self.sp())
                    })
                    .collect();
                let filter = filter.as_ref().map(|f| {
                    let f = self.ex(f);
                    format!("filter{}={}{f}", self.sp(), self.sp())
                });
                let cols = self.cols(cols);
                let cols = self.join1(&cols);
                let multi = if self.style.is_some() {
                    self.ch(1, 2)
                } else {
                    !rows.is_empty() && rows.len() >= self.o.threshold
                };
                let mut items = rt;
                if items.is_empty() && (multi || filter.is_some()) {
                    items.push("_".into());
                }
                items.extend(filter);
                if !multi {
                    let a = if items.is_empty() { "_".into() } else { self.join2(&items) };
                    return one(format!("Read:Virtual[{a}{}{cols}]", self.arrow()));
                }
                if self.style.is_none() {
                    let mut lines = vec!["Read:Virtual[".to_string()];
                    let n = items.len();
                    for (i, it) in items.into_iter().enumerate() {
                        lines.push(format!("- {it}{}", if i + 1 < n { "," } else { "" }));
                    }
                    lines.push(format!("- => {cols}]"));
                    return lines;
                }
                // Styled: break at any of the allowed points.
                let mut lines = vec!["Read:Virtual[".to_string()];
                let put = |lines: &mut Vec<String>, brk: bool, s: &str| {
                    if brk {
                        lines.push(format!("- {s}"));
                    } else {
                        lines.last_mut().unwrap().push_str(s);
                    }
                };
                let n = items.len();
                for (i, it) in items.into_iter().enumerate() {
                    let brk = self.ch(1, 2);
                    put(&mut lines, brk, &it);
                    if i + 1 < n {
                        let c = format!("{},", self.sp());
                        lines.last_mut().unwrap().push_str(&c);
                    }
                }
                let brk = self.ch(1, 2);
                let tail = if brk { format!("=>{}{cols}]", self.sp1()) } else { format!("{}=>{}{cols}]", self.sp1(), self.sp1()) };
                put(&mut lines, brk, &tail);
                lines
            }
            Op::RExt { cols, .. } => {
                let cols = self.cols(cols);
                let cols = self.join1(&cols);
                one(format!("Read:Extension[{cols}]"))
            }
            Op::Filter { cond, .. } => {
                let c = self.ex(cond);
                let o = self.outputs(r);
                let o = self.join2(&o);
                one(format!("Filter[{c}{}{o}]", self.arrow()))
            }
            Op::Project { .. } => {
                let o = self.outputs(r);
                let o = self.join2(&o);
                one(format!("Project[{o}]"))
            }
            Op::Agg { g, sets, .. } => {
                let single = sets.len() == 1;
                let mut v = vec![];
                for s in sets {
                    if s.is_empty() {
                        v.push("_".to_string());
                    } else {
                        let items: Vec<String> = s.iter().map(|&i| self.ex(&g[i])).collect();
                        let l = self.expr_list(&items);
                        if single && !self.ch(1, 3) {
                            v.push(l);
                        } else {
                            v.push(format!("({}{l}{})", self.sp(), self.sp()));
                        }
                    }
                }
                let gs = self.expr_list(&v);
                let o = self.outputs(r);
                let o = self.join2(&o);
                one(format!("Aggregate[{gs}{}{o}]", self.arrow()))
            }
            Op::Sort { fields, .. } => {
                let f: Vec<String> = fields
                    .iter()
                    .map(|(e, d)| {
                        let e = self.ex(e);
                        format!("({}{e}{}&{}{})", self.sp(), self.comma2(), SORT_DIRS[*d], self.sp())
                    })
                    .collect();
                let f = if f.is_empty() { "_".into() } else { self.join2(&f) };
                let o = self.outputs(r);
                let o = self.join2(&o);
                one(format!("Sort[{f}{}{o}]", self.arrow()))
            }
            Op::Fetch { limit, offset, .. } => {
                let mut v = vec![];
                for (k, e) in [("limit", limit), ("offset", offset)] {
                    if let Some(e) = e {
                        let x = self.ex(e);
                        v.push(format!("{k}{}={}{x}", self.sp(), self.sp()));
                    }
                }
                if v.len() == 2 && self.ch(1, 2) {
                    v.swap(0, 1);
                }
                let a = if v.is_empty() { "_".into() } else { self.join2(&v) };
                let o = self.outputs(r);
                let o = self.join2(&o);
                one(format!("Fetch[{a}{}{o}]", self.arrow()))
            }
            Op::Join { ty, cond, post, .. } => {
                let c = self.ex(cond);
                let post = match post {
                    None => String::new(),
                    Some(e) => {
                        let e = self.ex(e);
                        format!("{}post_filter{}={}{e}", self.comma2(), self.sp(), self.sp())
                    }
                };
                let o = self.outputs(r);
                let o = self.join2(&o);
                one(format!("Join[&{}{}{c}{post}{}{o}]", JOINS[*ty], self.comma2(), self.arrow()))
            }
            Op::Cross { .. } => {
                let o = self.outputs(r);
                let o = self.join2(&o);
                one(format!("Cross[{o}]"))
            }
            Op::Set { op, .. } => {
                let o = self.outputs(r);
                let o = self.join2(&o);
                one(format!("Set[&{}{}{o}]", SETS[*op], self.arrow()))
            }
            Op::Ext { kind, inv } => {
                let mut with_ctx = inv.clone();
                if inv.which == crate::ext::CTX && !self.ch(1, 3) {
                    let w = r.kids.iter().map(|k| Arg::Int(k.width() as i64)).collect();
                    with_ctx.named.push(("inputs".into(), Arg::Tuple(w)));
                }
                let a = self.inv_args(&with_ctx);
                let c: Vec<String> = inv.cols.iter().map(|c| self.ecol(c)).collect();
                let c = self.join2(&c);
                let n = self.name(crate::ext::NAMES[inv.which]);
                let lead = self.sp();
                if inv.cols.is_empty() && self.ch(1, 2) {
                    one(format!("{}:{n}[{lead}{a}]", EXT_KINDS[*kind]))
                } else {
                    one(format!("{}:{n}[{lead}{a}{}{c}]", EXT_KINDS[*kind], self.arrow()))
                }
            }
        }
    }

    fn addendum(&mut self, kind: &str, inv: &Inv) -> String {
        let n = self.name(crate::ext::NAMES[inv.which]);
        let a = self.inv_args(inv);
        format!("+{}{kind}:{n}[{a}]", self.sp1())
    }

    /// Emit the relation's lines at `depth`.
    pub fn rel(&mut self, r: &MRel, depth: usize, out: &mut Vec<Line>) {
        for (i, h) in self.header(r).into_iter().enumerate() {
            out.push(Line { depth: if i == 0 { depth } else { depth + 1 }, text: h, cont: i > 0 });
        }
        if let Op::RExt { inv, .. } = &r.op {
            let t = self.addendum("Ext", inv);
            out.push(Line { depth: depth + 1, text: t, cont: false });
        }
        if let Some(e) = &r.enh {
            let t = self.addendum("Enh", e);
            out.push(Line { depth: depth + 1, text: t, cont: false });
        }
        for e in &r.opts {
            let t = self.addendum("Opt", e);
            out.push(Line { depth: depth + 1, text: t, cont: false });
        }
        for k in &r.kids {
            self.rel(k, depth + 1, out);
        }
    }

    pub fn tree(&mut self, t: &MTree) -> Vec<Line> {
        let mut out = vec![];
        match &t.root {
            Some(names) => {
                let n: Vec<String> = names.iter().map(|n| self.name(n)).collect();
                let n = self.join2(&n);
                out.push(Line { depth: 0, text: format!("Root[{n}]"), cont: false });
                self.rel(&t.rel, 1, &mut out);
            }
            None => self.rel(&t.rel, 0, &mut out),
        }
        out
    }

    fn blank(&mut self, out: &mut Vec<Line>) {
        if self.ch(1, 4) {
            out.push(Line::blank());
        }
    }

    /// All lines of the plan text.
    pub fn plan_lines(&mut self, m: &MPlan) -> Vec<Line> {
        let mut out: Vec<Line> = vec![];
        self.blank(&mut out);
        if let Some(v) = &m.version {
            out.push(Line::at(0, format!("=== Version {}.{}.{}", v.major, v.minor, v.patch)));
            let mut f = vec![];
            if !v.producer.is_empty() {
                f.push(format!("producer: {}", v.producer));
            }
            if !v.git.is_empty() {
                f.push(format!("git_hash: {}", v.git));
            }
            if f.len() == 2 && self.ch(1, 3) {
                f.swap(0, 1);
            }
            for x in f {
                out.push(Line::at(1, x));
            }
            self.blank(&mut out);
        }
        if !m.decls.is_empty() || self.ch(1, 4) {
            self.decl_lines(m, &mut out);
        }
        out.push(Line::at(0, "=== Plan".into()));
        for (i, t) in m.trees.iter().enumerate() {
            if i > 0 && (self.style.is_none() || self.ch(3, 4)) {
                out.push(Line::blank());
            }
            let lines = self.tree(t);
            for l in lines {
                if !l.cont {
                    self.blank_rare(&mut out);
                }
                out.push(l);
            }
        }
        self.blank(&mut out);
        out
    }
    fn blank_rare(&mut self, out: &mut Vec<Line>) {
        if self.ch(1, 25) {
            out.push(Line::blank());
        }
    }

    fn decl_lines(&mut self, m: &MPlan, out: &mut Vec<Line>) {
        let styled = self.style.is_some();
        out.push(Line::at(0, "=== Extensions".into()));
        let d = &m.decls;
        let num = |s: &mut Self, pre: &str, n: u32| {
            if styled { format!("{pre}{}{n}", s.sp()) } else { format!("{pre}{n:3}") }
        };
        let urn_line = |s: &mut Self, u: &(u32, String)| {
            let a = num(s, "@", u.0);
            format!("{a}:{}{}", s.sp1(), u.1)
        };
        let decl_line = |s: &mut Self, x: &Decl, ty: bool| {
            let a = num(s, "#", x.anchor);
            let u = num(s, "@", x.urn);
            let pre = if ty && s.ch(1, 4) { "u!" } else { "" };
            format!("{a}{}{u}{}:{}{pre}{}", s.sp1(), s.sp(), s.sp1(), x.name)
        };
        if !styled {
            if !d.urns.is_empty() {
                out.push(Line::at(0, "URNs:".into()));
                for u in &d.urns {
                    let t = urn_line(self, u);
                    out.push(Line::at(1, t));
                }
            }
            for (h, xs) in [("Functions:", &d.funcs), ("Types:", &d.types), ("Type Variations:", &d.tvars)] {
                if !xs.is_empty() {
                    out.push(Line::at(0, h.into()));
                    for x in xs.iter() {
                        let t = decl_line(self, x, false);
                        out.push(Line::at(1, t));
                    }
                }
            }
            out.push(Line::blank());
            return;
        }
        // Styled: URNs first declared before use, otherwise any order and grouping.
        let mut rng = self.style.as_mut().unwrap().fork();
        let mut urns = d.urns.clone();
        rng.shuffle(&mut urns);
        let mut rest: Vec<(usize, Decl)> = vec![];
        for (k, xs) in [&d.funcs, &d.types, &d.tvars].into_iter().enumerate() {
            rest.extend(xs.iter().map(|x| (k, x.clone())));
        }
        if rng.coin() {
            rng.shuffle(&mut rest);
        }
        // Merge: each declaration after its URN.
        let mut seq: Vec<Result<(u32, String), (usize, Decl)>> = vec![];
        let interleave = rng.coin();
        let mut pending = rest;
        for u in urns {
            let a = u.0;
            seq.push(Ok(u));
            if interleave {
                let mut keep = vec![];
                for x in pending.into_iter() {
                    if x.1.urn == a { seq.push(Err(x)) } else { keep.push(x) }
                }
                pending = keep;
            }
        }
        seq.extend(pending.into_iter().map(Err));
        let mut cur: Option<usize> = None;
        for it in seq {
            let k = match &it {
                Ok(_) => 0,
                Err((k, _)) => k + 1,
            };
            if cur != Some(k) || rng.chance(1, 12) {
                if rng.chance(1, 6) {
                    out.push(Line::blank());
                }
                out.push(Line::at(0, ["URNs:", "Functions:", "Types:", "Type Variations:"][k].into()));
                cur = Some(k);
            }
            let t = match &it {
                Ok(u) => urn_line(self, u),
                Err((k, x)) => decl_line(self, x, *k == 1),
            };
            out.push(Line::at(1, t));
        }
        self.blank(out);
    }

    pub fn plan(&mut self, m: &MPlan) -> String {
        let lines = self.plan_lines(m);
        let eol = if self.ch(1, 4) { "\r\n" } else { "\n" };
        let mut s = lines_text(&lines, &self.o.indent, eol);
        if self.ch(1, 6) && s.ends_with(eol) {
            s.truncate(s.len() - eol.len());
        }
        s
    }
}

#[derive(Clone, Debug, PartialEq)]
pub struct Line {
    pub depth: usize,
    pub text: String,
    pub cont: bool,
}
impl Line {
    pub fn blank() -> Line {
        Line { depth: 0, text: String::new(), cont: false }
    }
    pub fn at(depth: usize, text: String) -> Line {
        Line { depth, text, cont: false }
    }
}
pub fn lines_text(lines: &[Line], indent: &str, eol: &str) -> String {
    let mut s = String::new();
    for l in lines {
        if !l.text.is_empty() {
            for _ in 0..l.depth {
                s.push_str(indent);
            }
            s.push_str(&l.text);
        }
        s.push_str(eol);
    }
    s
}

pub fn canon_text(m: &MPlan) -> String {
    Pr::canon(&m.decls).plan(m)
}
pub fn canon_proto(m: &MPlan) -> p::Plan {
    Enc::canon().plan(m)
}
