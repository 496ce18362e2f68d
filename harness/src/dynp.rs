//! Reflection over plans: random messages of the full Substrait schema, and paths to every
//! message node of a plan for targeted damage.
use crate::genr;
use crate::rng::Rng;
use prost::Message;
use prost_reflect::{DescriptorPool, DynamicMessage, FieldDescriptor, Kind, MessageDescriptor, ReflectMessage, Value};
use std::sync::OnceLock;
use substrait::proto as p;

pub fn pool() -> &'static DescriptorPool {
    static P: OnceLock<DescriptorPool> = OnceLock::new();
    P.get_or_init(|| DescriptorPool::decode(p::FILE_DESCRIPTOR_SET).unwrap())
}
pub fn desc(name: &str) -> MessageDescriptor {
    pool().get_message_by_name(name).unwrap_or_else(|| panic!("no message {name}"))
}
pub fn to_dyn(plan: &p::Plan) -> DynamicMessage {
    DynamicMessage::decode(desc("substrait.Plan"), &plan.encode_to_vec()[..]).unwrap()
}
pub fn to_plan(d: &DynamicMessage) -> Option<p::Plan> {
    p::Plan::decode(&enc(d)[..]).ok()
}
/// Wire encoding, bottom-up (the library's takes time quadratic in the depth).
pub fn enc(m: &DynamicMessage) -> Vec<u8> {
    use prost::encoding as e;
    fn one(f: &FieldDescriptor, v: &Value, out: &mut Vec<u8>) {
        let n = f.number();
        match (v, f.kind()) {
            (Value::Bool(x), _) => e::bool::encode(n, x, out),
            (Value::I32(x), Kind::Sint32) => e::sint32::encode(n, x, out),
            (Value::I32(x), Kind::Sfixed32) => e::sfixed32::encode(n, x, out),
            (Value::I32(x), _) | (Value::EnumNumber(x), _) => e::int32::encode(n, x, out),
            (Value::I64(x), Kind::Sint64) => e::sint64::encode(n, x, out),
            (Value::I64(x), Kind::Sfixed64) => e::sfixed64::encode(n, x, out),
            (Value::I64(x), _) => e::int64::encode(n, x, out),
            (Value::U32(x), Kind::Fixed32) => e::fixed32::encode(n, x, out),
            (Value::U32(x), _) => e::uint32::encode(n, x, out),
            (Value::U64(x), Kind::Fixed64) => e::fixed64::encode(n, x, out),
            (Value::U64(x), _) => e::uint64::encode(n, x, out),
            (Value::F32(x), _) => e::float::encode(n, x, out),
            (Value::F64(x), _) => e::double::encode(n, x, out),
            (Value::String(x), _) => e::string::encode(n, x, out),
            (Value::Bytes(x), _) => e::bytes::encode(n, &x.to_vec(), out),
            (Value::Message(x), _) => {
                let b = enc(x);
                e::bytes::encode(n, &b, out);
            }
            (Value::List(_), _) | (Value::Map(_), _) => unreachable!(),
        }
    }
    let mut out = vec![];
    for (f, v) in m.fields() {
        match v {
            Value::List(l) => {
                for x in l {
                    one(&f, x, &mut out);
                }
            }
            Value::Map(_) => {}
            _ => one(&f, v, &mut out),
        }
    }
    out
}

/// How a random message is filled.
pub struct Wild<'a> {
    pub r: &'a mut Rng,
    pub budget: i64,
    /// Only finite numbers and known enum values (what JSON can carry).
    pub tame: bool,
}
impl Wild<'_> {
    pub fn message(&mut self, d: &MessageDescriptor, depth: usize) -> DynamicMessage {
        let mut m = DynamicMessage::new(d.clone());
        let full = d.full_name();
        if full == "google.protobuf.Any" {
            let url = match self.r.below(3) {
                0 => crate::ext::url(self.r.below(9), self.r.below(4)),
                1 => "type.googleapis.com/unknown.Thing".to_string(),
                _ => String::new(),
            };
            let v: Vec<u8> = match self.r.below(3) {
                0 => vec![],
                1 => (0..self.r.below(8)).map(|_| self.r.u64() as u8).collect(),
                _ => {
                    let n = self.r.below(9);
                    let s = self.r.below(4);
                    crate::ext::GenMsg { tag: crate::ext::tag(n, s), poison: self.r.below(2) as u32, ..Default::default() }
                        .encode_to_vec()
                }
            };
            m.set_field_by_name("type_url", Value::String(url));
            m.set_field_by_name("value", Value::Bytes(v.into()));
            return m;
        }
        self.budget -= 1;
        // One member of each oneof, usually set.
        for o in d.oneofs().filter(|o| !o.is_synthetic()) {
            let fs: Vec<FieldDescriptor> = o.fields().collect();
            let must = depth < 14 && self.budget > 0;
            if self.r.chance(if must { 15 } else { 4 }, 16) {
                let mut f = self.r.pick(&fs).clone();
                if !must {
                    // Prefer a scalar when running out of room.
                    if let Some(s) = fs.iter().find(|f| !matches!(f.kind(), Kind::Message(_))) {
                        f = s.clone();
                    }
                }
                if full == "substrait.Rel" && self.r.chance(2, 3) {
                    let known = ["read", "filter", "fetch", "aggregate", "sort", "join", "project", "set", "cross"];
                    f = d.get_field_by_name(self.r.pick::<&str>(&known)).unwrap();
                }
                if full == "substrait.Expression" && self.r.chance(1, 2) {
                    let known = ["literal", "selection", "scalar_function", "if_then", "cast"];
                    f = d.get_field_by_name(self.r.pick::<&str>(&known)).unwrap();
                }
                if depth < 24 {
                    let v = self.value(&f, depth);
                    m.set_field(&f, v);
                }
            }
        }
        for f in d.fields() {
            if f.containing_oneof().is_some_and(|o| !o.is_synthetic()) {
                continue;
            }
            let is_msg = matches!(f.kind(), Kind::Message(_));
            if is_msg && (depth >= 14 || self.budget <= 0) {
                continue;
            }
            let important = f.name().starts_with("input")
                || ["left", "right", "relations", "base_schema", "extensions", "extension_urns"].contains(&f.name());
            if !self.r.chance(if important { 9 } else { 6 }, 10) {
                continue;
            }
            if f.is_map() {
                continue;
            }
            if f.is_list() {
                let n = *self.r.pick(&[0, 1, 1, 2, 2, 3]);
                let v = (0..n).map(|_| self.value(&f, depth)).collect();
                m.set_field(&f, Value::List(v));
            } else {
                let v = self.value(&f, depth);
                m.set_field(&f, v);
            }
        }
        m
    }
    fn value(&mut self, f: &FieldDescriptor, depth: usize) -> Value {
        let r = &mut *self.r;
        match f.kind() {
            Kind::Message(d) => Value::Message(self.message(&d, depth + 1)),
            Kind::Enum(e) => {
                let vs: Vec<i32> = e.values().map(|v| v.number()).collect();
                if !self.tame && r.chance(1, 8) {
                    Value::EnumNumber(*r.pick(&[-1, 99, i32::MAX, i32::MIN]))
                } else {
                    Value::EnumNumber(*r.pick(&vs))
                }
            }
            Kind::Bool => Value::Bool(r.coin()),
            Kind::String => {
                let own = f.parent_message().full_name();
                Value::String(if own.starts_with("substrait.extensions") || own == "substrait.Version" {
                    genr::ident(r)
                } else {
                    genr::any_string(r)
                })
            }
            Kind::Bytes => Value::Bytes((0..r.below(6)).map(|_| r.u64() as u8).collect::<Vec<u8>>().into()),
            Kind::Double => Value::F64(if self.tame {
                genr::any_f64(r)
            } else {
                *r.pick(&[0.0, -0.0, 1.5, f64::NAN, f64::INFINITY, f64::NEG_INFINITY, 1e300])
            }),
            Kind::Float => Value::F32(if self.tame {
                genr::any_f32(r)
            } else {
                *r.pick(&[0.0, -0.0, 1.5, f32::NAN, f32::INFINITY, f32::NEG_INFINITY, 1e30])
            }),
            Kind::Int32 | Kind::Sint32 | Kind::Sfixed32 => Value::I32(r.edgy(i32::MIN as i64, i32::MAX as i64) as i32),
            Kind::Int64 | Kind::Sint64 | Kind::Sfixed64 => Value::I64(r.edgy(i64::MIN, i64::MAX)),
            Kind::Uint32 | Kind::Fixed32 => Value::U32(genr::anchor(r)),
            Kind::Uint64 | Kind::Fixed64 => Value::U64(r.u64()),
        }
    }
}

/// Where a message sits: field numbers with list positions.
pub type Path = Vec<(u32, Option<usize>)>;

/// All message nodes with their type names, in document order.
pub fn nodes(m: &DynamicMessage) -> Vec<(Path, String)> {
    fn go(m: &DynamicMessage, at: &mut Path, out: &mut Vec<(Path, String)>) {
        out.push((at.clone(), m.descriptor().full_name().to_string()));
        for (f, v) in m.fields() {
            match v {
                Value::Message(x) => {
                    at.push((f.number(), None));
                    go(x, at, out);
                    at.pop();
                }
                Value::List(l) => {
                    for (i, x) in l.iter().enumerate() {
                        if let Value::Message(x) = x {
                            at.push((f.number(), Some(i)));
                            go(x, at, out);
                            at.pop();
                        }
                    }
                }
                _ => {}
            }
        }
    }
    let mut out = vec![];
    go(m, &mut vec![], &mut out);
    out
}
pub fn at_mut<'a>(m: &'a mut DynamicMessage, path: &[(u32, Option<usize>)]) -> &'a mut DynamicMessage {
    let mut cur = m;
    for (n, i) in path {
        let f = cur.descriptor().get_field(*n).unwrap();
        let v = cur.get_field_mut(&f);
        cur = match (v, i) {
            (Value::Message(x), None) => x,
            (Value::List(l), Some(i)) => match &mut l[*i] {
                Value::Message(x) => x,
                _ => unreachable!(),
            },
            _ => unreachable!(),
        };
    }
    cur
}
/// Replace the node by another message of its type.
pub fn put(m: &mut DynamicMessage, path: &[(u32, Option<usize>)], with: &impl Message) {
    let d = at_mut(m, path).descriptor();
    *at_mut(m, path) = DynamicMessage::decode(d, &with.encode_to_vec()[..]).unwrap();
}
pub fn get<T: Message + Default>(m: &mut DynamicMessage, path: &[(u32, Option<usize>)]) -> T {
    T::decode(&enc(at_mut(m, path))[..]).unwrap()
}
