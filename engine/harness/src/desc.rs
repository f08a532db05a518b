//! Protobuf schemas, values, descriptors and a schema-driven codec, all independent of the code under test.
use crate::cfg::quote;
use crate::pb::{self, W};
use crate::rng::Rng;
use std::collections::BTreeMap;

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum T {
    Double,
    Float,
    I64,
    U64,
    I32,
    Fx64,
    Fx32,
    Bool,
    Str,
    Bytes,
    U32,
    Enum,
    Sf32,
    Sf64,
    Si32,
    Si64,
    Time,
    Struct,
    Msg(usize),
}

pub const SCALARS: &[T] = &[T::Double, T::Float, T::I64, T::U64, T::I32, T::Fx64, T::Fx32, T::Bool, T::Str, T::Bytes, T::U32, T::Enum, T::Sf32, T::Sf64, T::Si32, T::Si64];
pub const KEYS: &[T] = &[T::Str, T::I64, T::U64, T::I32, T::U32, T::Bool, T::Si32, T::Fx64];

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Card {
    One,
    Opt,
    Rep,
    Map(T),
    Oneof,
}

#[derive(Clone, Debug)]
pub struct Fld {
    pub name: String,
    pub num: u32,
    pub card: Card,
    pub ty: T,
}

#[derive(Clone, Debug, Default)]
pub struct Msg {
    pub name: String,
    pub fields: Vec<Fld>,
}

#[derive(Clone, Debug, Default)]
pub struct Schema {
    pub package: String,
    pub msgs: Vec<Msg>,
    pub service: String,
    pub methods: Vec<(String, usize, usize)>,
}

#[derive(Clone, Debug, PartialEq)]
pub enum V {
    B(bool),
    I(i64),
    U(u64),
    D(f64),
    S(String),
    Y(Vec<u8>),
    Time(i64, i32),
    J(BTreeMap<String, J>),
    M(BTreeMap<u32, F>),
}

#[derive(Clone, Debug, PartialEq)]
pub enum J {
    Null,
    B(bool),
    N(f64),
    S(String),
    L(Vec<J>),
    O(BTreeMap<String, J>),
}

#[derive(Clone, Debug, PartialEq)]
pub enum F {
    One(V),
    Rep(Vec<V>),
    Map(Vec<(V, V)>),
}

/// The enum every schema has: names to numbers.
pub const ENUM: &[(&str, i64)] = &[("ZERO", 0), ("ONE", 1), ("FAR", 70000), ("NEG", -3)];

pub fn proto_type(t: T) -> (u64, Option<String>) {
    match t {
        T::Double => (1, None),
        T::Float => (2, None),
        T::I64 => (3, None),
        T::U64 => (4, None),
        T::I32 => (5, None),
        T::Fx64 => (6, None),
        T::Fx32 => (7, None),
        T::Bool => (8, None),
        T::Str => (9, None),
        T::Bytes => (12, None),
        T::U32 => (13, None),
        T::Enum => (14, Some("E".into())),
        T::Sf32 => (15, None),
        T::Sf64 => (16, None),
        T::Si32 => (17, None),
        T::Si64 => (18, None),
        T::Time => (11, Some(".google.protobuf.Timestamp".into())),
        T::Struct => (11, Some(".google.protobuf.Struct".into())),
        T::Msg(_) => (11, None),
    }
}

impl Schema {
    pub fn full(&self, i: usize) -> String {
        format!("{}.{}", self.package, self.msgs[i].name)
    }
    pub fn service_name(&self) -> String {
        format!("{}.{}", self.package, self.service)
    }

    /// A message with the given number of fields; nested messages come after their users.
    pub fn random(rng: &mut Rng, package: &str, fields: usize) -> Schema {
        let n = rng.range(2, 4);
        let mut msgs: Vec<Msg> = vec![];
        for i in 0..n {
            let mut fs = vec![];
            let mut num = rng.range(1, 3) as u32;
            for j in 0..rng.range(if i < 2 { 2 } else { 1 }, fields) {
                let ty = match rng.below(12) {
                    // the first two are the request and the reply
                    0 | 1 if i + 1 < n && n > 2 && i.max(1) + 1 < n => T::Msg(rng.range(i.max(1) + 1, n - 1)),
                    2 => T::Time,
                    3 => T::Struct,
                    _ => *rng.pick(SCALARS),
                };
                let card = match rng.below(9) {
                    0 | 1 => Card::Rep,
                    2 if ty != T::Struct => Card::Map(*rng.pick(KEYS)),
                    3 => Card::Opt,
                    4 => Card::Oneof,
                    _ => Card::One,
                };
                fs.push(Fld { name: format!("f{j}"), num, card, ty });
                num += if rng.pct(10) { 2000 } else { rng.range(1, 4) as u32 };
            }
            msgs.push(Msg { name: format!("M{i}"), fields: fs });
        }
        Schema { package: package.into(), msgs, service: "Svc".into(), methods: vec![("Do".into(), 0, 1)] }
    }

    /// FileDescriptorSet of this schema.
    pub fn descriptors(&self) -> Vec<u8> {
        let mut file = vec![pb::s(1, &format!("{}.proto", self.package)), pb::s(2, &self.package), pb::s(3, "google/protobuf/timestamp.proto"), pb::s(3, "google/protobuf/struct.proto")];
        for m in &self.msgs {
            let mut d = vec![pb::s(1, &m.name)];
            let mut oneofs: Vec<String> = vec![];
            // real oneofs come before the synthetic ones of optional fields
            if m.fields.iter().any(|f| f.card == Card::Oneof) {
                oneofs.push("choice".into());
            }
            for f in &m.fields {
                let (mut ty, mut tn) = proto_type(f.ty);
                if let T::Msg(i) = f.ty {
                    tn = Some(format!(".{}", self.full(i)));
                }
                if f.ty == T::Enum {
                    tn = Some(format!(".{}.E", self.package));
                }
                if let Card::Map(k) = f.card {
                    let entry = format!("{}{}Entry", f.name[..1].to_uppercase(), &f.name[1..]);
                    let mut val = vec![pb::s(1, "value"), pb::int(3, 2), pb::int(4, 1), pb::int(5, ty as i64)];
                    if let Some(t) = &tn {
                        val.push(pb::s(6, t));
                    }
                    d.push(pb::sub(
                        3,
                        &[
                            pb::s(1, &entry),
                            pb::sub(2, &[pb::s(1, "key"), pb::int(3, 1), pb::int(4, 1), pb::int(5, proto_type(k).0 as i64)]),
                            pb::sub(2, &val),
                            pb::sub(7, &[pb::int(7, 1)]),
                        ],
                    ));
                    ty = 11;
                    tn = Some(format!(".{}.{}.{entry}", self.package, m.name));
                }
                let label = if matches!(f.card, Card::Rep | Card::Map(_)) { 3 } else { 1 };
                let mut fd = vec![pb::s(1, &f.name), pb::int(3, f.num as i64), pb::int(4, label), pb::int(5, ty as i64)];
                if let Some(t) = &tn {
                    fd.push(pb::s(6, t));
                }
                match f.card {
                    Card::Oneof => fd.push(pb::int(9, 0)),
                    Card::Opt if !matches!(f.ty, T::Msg(_) | T::Time | T::Struct) => {
                        fd.push(pb::int(9, oneofs.len() as i64));
                        fd.push(pb::int(17, 1));
                        oneofs.push(format!("_{}", f.name));
                    }
                    _ => {}
                }
                d.push(pb::sub(2, &fd));
            }
            for o in &oneofs {
                d.push(pb::sub(8, &[pb::s(1, o)]));
            }
            file.push(pb::sub(4, &d));
        }
        let values: Vec<(u32, W)> = std::iter::once(pb::s(1, "E")).chain(ENUM.iter().map(|(n, v)| pb::sub(2, &[pb::s(1, n), pb::int(2, *v)]))).collect();
        file.push(pb::sub(5, &values));
        let mut svc = vec![pb::s(1, &self.service)];
        for (name, i, o) in &self.methods {
            svc.push(pb::sub(2, &[pb::s(1, name), pb::s(2, &format!(".{}", self.full(*i))), pb::s(3, &format!(".{}", self.full(*o)))]));
        }
        file.push(pb::sub(6, &svc));
        file.push(pb::s(12, "proto3"));
        let fld = |name: &str, num: i64, label: i64, ty: i64, tn: Option<&str>, oneof: bool| {
            let mut f = vec![pb::s(1, name), pb::int(3, num), pb::int(4, label), pb::int(5, ty)];
            if let Some(t) = tn {
                f.push(pb::s(6, t));
            }
            if oneof {
                f.push(pb::int(9, 0));
            }
            pb::sub(2, &f)
        };
        let time = vec![
            pb::s(1, "google/protobuf/timestamp.proto"),
            pb::s(2, "google.protobuf"),
            pb::sub(4, &[pb::s(1, "Timestamp"), fld("seconds", 1, 1, 3, None, false), fld("nanos", 2, 1, 5, None, false)]),
            pb::s(12, "proto3"),
        ];
        let st = vec![
            pb::s(1, "google/protobuf/struct.proto"),
            pb::s(2, "google.protobuf"),
            pb::sub(
                4,
                &[
                    pb::s(1, "Struct"),
                    fld("fields", 1, 3, 11, Some(".google.protobuf.Struct.FieldsEntry"), false),
                    pb::sub(
                        3,
                        &[pb::s(1, "FieldsEntry"), fld("key", 1, 1, 9, None, false), fld("value", 2, 1, 11, Some(".google.protobuf.Value"), false), pb::sub(7, &[pb::int(7, 1)])],
                    ),
                ],
            ),
            pb::sub(
                4,
                &[
                    pb::s(1, "Value"),
                    fld("null_value", 1, 1, 14, Some(".google.protobuf.NullValue"), true),
                    fld("number_value", 2, 1, 1, None, true),
                    fld("string_value", 3, 1, 9, None, true),
                    fld("bool_value", 4, 1, 8, None, true),
                    fld("struct_value", 5, 1, 11, Some(".google.protobuf.Struct"), true),
                    fld("list_value", 6, 1, 11, Some(".google.protobuf.ListValue"), true),
                    pb::sub(8, &[pb::s(1, "kind")]),
                ],
            ),
            pb::sub(4, &[pb::s(1, "ListValue"), fld("values", 1, 3, 11, Some(".google.protobuf.Value"), false)]),
            pb::sub(5, &[pb::s(1, "NullValue"), pb::sub(2, &[pb::s(1, "NULL_VALUE"), pb::int(2, 0)])]),
            pb::s(12, "proto3"),
        ];
        pb::enc(&[pb::sub(1, &time), pb::sub(1, &st), pb::sub(1, &file)])
    }

    pub fn value(&self, rng: &mut Rng, t: T, depth: usize) -> V {
        match t {
            T::Bool => V::B(rng.pct(50)),
            T::I32 | T::Si32 | T::Sf32 => V::I(*rng.pick(&[0, 1, -1, i32::MAX as i64, i32::MIN as i64, 77, -123456])),
            T::I64 | T::Si64 | T::Sf64 => V::I(*rng.pick(&[0, 1, -1, i64::MAX, i64::MIN, (1 << 53) + 1, -(1 << 40)])),
            T::U32 | T::Fx32 => V::U(*rng.pick(&[0, 1, u32::MAX as u64, 1 << 31, 300])),
            T::U64 | T::Fx64 => V::U(*rng.pick(&[0, 1, u64::MAX, 1 << 63, (1 << 53) + 1])),
            T::Double => V::D(*rng.pick(&[0.0, 1.5, -2.25, 1e300, -1e-300, 0.1, 3.0, 123456789.125])),
            T::Float => V::D(*rng.pick(&[0.0, 1.5, -2.25, 0.5, 3.0, 16777216.0, -1048576.25])),
            T::Str => V::S(if rng.pct(5) { "z".repeat(rng.range(128, 20000)) } else { rng.pick(&["", "a", "é\u{1F980}", "it's", "back\\slash", "\"q\"", "line\nbreak", "tab\t", "123", "null"]).to_string() }),
            T::Bytes => V::Y(rng.pick(&[&b""[..], b"abc", b"\xff\x00\x80", b"it's", b"\\n"]).to_vec()),
            T::Enum => V::I(rng.pick(ENUM).1),
            T::Time => V::Time(*rng.pick(&[0, 1_700_000_000, 1, 4_102_444_799]), *rng.pick(&[0, 1, 999_999_999, 123_000_000])),
            T::Struct => {
                let mut o = BTreeMap::new();
                for i in 0..rng.below(4) {
                    o.insert(format!("k{i}"), json(rng, 2));
                }
                V::J(o)
            }
            T::Msg(i) => self.message(rng, i, depth),
        }
    }

    pub fn message(&self, rng: &mut Rng, i: usize, depth: usize) -> V {
        let mut m = BTreeMap::new();
        let choice: Vec<u32> = self.msgs[i].fields.iter().filter(|f| f.card == Card::Oneof).map(|f| f.num).collect();
        let chosen = if choice.is_empty() || rng.pct(25) { None } else { Some(*rng.pick(&choice)) };
        for f in &self.msgs[i].fields {
            let there = match f.card {
                Card::Oneof => chosen == Some(f.num),
                _ => rng.pct(75),
            };
            if !there || depth == 0 && matches!(f.ty, T::Msg(_)) {
                continue;
            }
            let v = match f.card {
                Card::One | Card::Opt | Card::Oneof => F::One(self.value(rng, f.ty, depth.saturating_sub(1))),
                Card::Rep => F::Rep((0..rng.below(4)).map(|_| self.value(rng, f.ty, depth.saturating_sub(1))).collect()),
                Card::Map(k) => {
                    let mut es: Vec<(V, V)> = vec![];
                    for _ in 0..rng.below(4) {
                        let key = self.value(rng, k, 0);
                        if !es.iter().any(|e| e.0 == key) {
                            es.push((key, self.value(rng, f.ty, depth.saturating_sub(1))));
                        }
                    }
                    F::Map(es)
                }
            };
            m.insert(f.num, v);
        }
        V::M(m)
    }

    pub fn has_presence(&self, f: &Fld) -> bool {
        matches!(f.card, Card::Opt | Card::Oneof) || f.card == Card::One && matches!(f.ty, T::Msg(_) | T::Time | T::Struct)
    }

    /// What remains of a value on the wire: defaults are not told from what was left out.
    pub fn normal(&self, i: usize, v: &V) -> V {
        let V::M(m) = v else { return v.clone() };
        let mut out = BTreeMap::new();
        for f in &self.msgs[i].fields {
            let Some(x) = m.get(&f.num) else { continue };
            let inner = |v: &V| if let T::Msg(j) = f.ty { self.normal(j, v) } else { v.clone() };
            match x {
                F::One(v) => {
                    if self.has_presence(f) || !is_default(v) {
                        out.insert(f.num, F::One(inner(v)));
                    }
                }
                F::Rep(vs) if !vs.is_empty() => {
                    out.insert(f.num, F::Rep(vs.iter().map(inner).collect()));
                }
                F::Map(es) if !es.is_empty() => {
                    let mut es: Vec<(V, V)> = es.iter().map(|(k, v)| (k.clone(), inner(v))).collect();
                    es.sort_by_key(|e| format!("{:?}", e.0));
                    out.insert(f.num, F::Map(es));
                }
                _ => {}
            }
        }
        V::M(out)
    }

    /// An expression that builds the value.
    pub fn cel(&self, t: T, v: &V) -> String {
        match (t, v) {
            (T::Msg(i), V::M(m)) => {
                let fs: Vec<String> = self.msgs[i]
                    .fields
                    .iter()
                    .filter_map(|f| {
                        let x = m.get(&f.num)?;
                        let e = match x {
                            F::One(v) => self.cel(f.ty, v),
                            F::Rep(vs) => format!("[{}]", vs.iter().map(|v| self.cel(f.ty, v)).collect::<Vec<_>>().join(", ")),
                            F::Map(es) => {
                                let Card::Map(k) = f.card else { unreachable!() };
                                format!("{{{}}}", es.iter().map(|(a, b)| format!("{}: {}", self.cel(k, a), self.cel(f.ty, b))).collect::<Vec<_>>().join(", "))
                            }
                        };
                        Some(format!("{}: {e}", f.name))
                    })
                    .collect();
                format!("{} {{ {} }}", self.full(i), fs.join(", "))
            }
            (_, V::B(b)) => b.to_string(),
            (_, V::I(i)) => i.to_string(),
            (_, V::U(u)) => format!("{u}u"),
            (_, V::D(d)) => double(*d),
            (_, V::S(s)) => quote(s),
            (_, V::Y(b)) => format!("b'{}'", b.iter().map(|c| if c.is_ascii_alphanumeric() { (*c as char).to_string() } else { format!("\\x{c:02x}") }).collect::<String>()),
            (_, V::Time(s, n)) => format!("timestamp('{}')", crate::props::rfc3339(s * 1_000_000_000 + *n as i64)),
            (_, V::J(o)) => jstruct(o),
            _ => unreachable!("{t:?} {v:?}"),
        }
    }

    fn scalar(&self, rng: &mut Rng, t: T, v: &V) -> W {
        let zig = |i: i64| ((i << 1) ^ (i >> 63)) as u64;
        match (t, v) {
            (T::Bool, V::B(b)) => W::Varint(*b as u64),
            (T::I32 | T::I64 | T::Enum, V::I(i)) => W::Varint(*i as u64),
            (T::Si32 | T::Si64, V::I(i)) => W::Varint(zig(*i)),
            (T::Sf32, V::I(i)) => W::Fixed32(*i as i32 as u32),
            (T::Sf64, V::I(i)) => W::Fixed64(*i as u64),
            (T::U32 | T::U64, V::U(u)) => W::Varint(*u),
            (T::Fx32, V::U(u)) => W::Fixed32(*u as u32),
            (T::Fx64, V::U(u)) => W::Fixed64(*u),
            (T::Double, V::D(d)) => W::Fixed64(d.to_bits()),
            (T::Float, V::D(d)) => W::Fixed32((*d as f32).to_bits()),
            (T::Str, V::S(s)) => W::Len(s.as_bytes().to_vec()),
            (T::Bytes, V::Y(b)) => W::Len(b.clone()),
            (T::Time, V::Time(s, n)) => {
                let mut m = vec![];
                if *s != 0 {
                    m.push(pb::int(1, *s));
                }
                if *n != 0 {
                    m.push(pb::int(2, *n as i64));
                }
                W::Len(pb::enc(&m))
            }
            (T::Struct, V::J(o)) => W::Len(enc_struct(o)),
            (T::Msg(i), v) => W::Len(self.encode(rng, i, v)),
            _ => unreachable!("{t:?} {v:?}"),
        }
    }

    /// Wire form; repeated scalars packed or not, defaults sometimes spelled out, fields out of order, unknown ones added.
    pub fn encode(&self, rng: &mut Rng, i: usize, v: &V) -> Vec<u8> {
        let V::M(m) = v else { unreachable!() };
        let mut out: Vec<(u32, W)> = vec![];
        for f in &self.msgs[i].fields {
            let Some(x) = m.get(&f.num) else { continue };
            match x {
                F::One(v) => {
                    if self.has_presence(f) || !is_default(v) || rng.pct(30) {
                        if rng.pct(8) && !matches!(f.ty, T::Msg(_) | T::Time | T::Struct) {
                            // the last one counts
                            let other = self.value(rng, f.ty, 0);
                            out.push((f.num, self.scalar(rng, f.ty, &other)));
                        }
                        let w = self.scalar(rng, f.ty, v);
                        out.push((f.num, w));
                    }
                }
                F::Rep(vs) => {
                    let packable = !matches!(f.ty, T::Str | T::Bytes | T::Msg(_) | T::Time | T::Struct);
                    if packable && rng.pct(60) && !vs.is_empty() {
                        let mut b = vec![];
                        for v in vs {
                            match self.scalar(rng, f.ty, v) {
                                W::Varint(v) => pb::put_varint(&mut b, v),
                                W::Fixed32(v) => b.extend(v.to_le_bytes()),
                                W::Fixed64(v) => b.extend(v.to_le_bytes()),
                                W::Len(_) => unreachable!(),
                            }
                        }
                        out.push((f.num, W::Len(b)));
                    } else {
                        for v in vs {
                            let w = self.scalar(rng, f.ty, v);
                            out.push((f.num, w));
                        }
                    }
                }
                F::Map(es) => {
                    let Card::Map(k) = f.card else { unreachable!() };
                    for (a, b) in es {
                        let mut e = vec![];
                        if !is_default(a) || rng.pct(70) {
                            e.push((1, self.scalar(rng, k, a)));
                        }
                        if !is_default(b) || rng.pct(70) {
                            e.push((2, self.scalar(rng, f.ty, b)));
                        }
                        out.push((f.num, W::Len(pb::enc(&e))));
                    }
                }
            }
        }
        if rng.pct(15) {
            let w = rng.pick(&[W::Varint(7), W::Len(b"xyz".to_vec()), W::Fixed32(1), W::Fixed64(2)]).clone();
            let at = rng.below(out.len() + 1);
            out.insert(at, (19_000_000, w));
        }
        pb::enc(&out)
    }

    fn read(&self, t: T, w: &W) -> Option<V> {
        let unzig = |u: u64| ((u >> 1) as i64) ^ -((u & 1) as i64);
        Some(match (t, w) {
            (T::Bool, W::Varint(u)) => V::B(*u != 0),
            (T::I32 | T::Enum, W::Varint(u)) => V::I(*u as i32 as i64),
            (T::I64, W::Varint(u)) => V::I(*u as i64),
            (T::Si32 | T::Si64, W::Varint(u)) => V::I(unzig(*u)),
            (T::Sf32, W::Fixed32(u)) => V::I(*u as i32 as i64),
            (T::Sf64, W::Fixed64(u)) => V::I(*u as i64),
            (T::U32, W::Varint(u)) => V::U(*u as u32 as u64),
            (T::U64, W::Varint(u)) => V::U(*u),
            (T::Fx32, W::Fixed32(u)) => V::U(*u as u64),
            (T::Fx64, W::Fixed64(u)) => V::U(*u),
            (T::Double, W::Fixed64(u)) => V::D(f64::from_bits(*u)),
            (T::Float, W::Fixed32(u)) => V::D(f32::from_bits(*u) as f64),
            (T::Str, W::Len(b)) => V::S(String::from_utf8(b.clone()).ok()?),
            (T::Bytes, W::Len(b)) => V::Y(b.clone()),
            (T::Time, W::Len(b)) => {
                let m = pb::dec(b)?;
                V::Time(pb::get_int(&m, 1), pb::get_int(&m, 2) as i32)
            }
            (T::Struct, W::Len(b)) => V::J(dec_struct(b)?),
            (T::Msg(i), W::Len(b)) => self.decode(i, b)?,
            _ => return None,
        })
    }

    fn zero(t: T) -> V {
        match t {
            T::Bool => V::B(false),
            T::U32 | T::U64 | T::Fx32 | T::Fx64 => V::U(0),
            T::Double | T::Float => V::D(0.0),
            T::Str => V::S(String::new()),
            T::Bytes => V::Y(vec![]),
            T::Time => V::Time(0, 0),
            T::Struct => V::J(BTreeMap::new()),
            T::Msg(_) => V::M(BTreeMap::new()),
            _ => V::I(0),
        }
    }

    /// None when the bytes are not a message of the schema, or hold fields it does not have.
    pub fn decode(&self, i: usize, b: &[u8]) -> Option<V> {
        let mut out: BTreeMap<u32, F> = BTreeMap::new();
        for (num, w) in pb::dec(b)? {
            let f = self.msgs[i].fields.iter().find(|f| f.num == num)?;
            match f.card {
                Card::One | Card::Opt | Card::Oneof => {
                    out.insert(num, F::One(self.read(f.ty, &w)?));
                }
                Card::Rep => {
                    let F::Rep(vs) = out.entry(num).or_insert(F::Rep(vec![])) else { unreachable!() };
                    match (&w, f.ty) {
                        (W::Len(b), t) if !matches!(t, T::Str | T::Bytes | T::Msg(_) | T::Time | T::Struct) => {
                            // packed: read with a made-up tag before every element
                            let wt = match t {
                                T::Double | T::Fx64 | T::Sf64 => 1u8,
                                T::Float | T::Fx32 | T::Sf32 => 5,
                                _ => 0,
                            };
                            let mut rest = &b[..];
                            while !rest.is_empty() {
                                let n = match wt {
                                    1 => 8,
                                    5 => 4,
                                    _ => rest.iter().position(|c| c & 0x80 == 0)? + 1,
                                };
                                let one = pb::dec(&[&[8 | wt][..], rest.get(..n)?].concat())?;
                                vs.push(self.read(t, &one[0].1)?);
                                rest = &rest[n..];
                            }
                        }
                        _ => vs.push(self.read(f.ty, &w)?),
                    }
                }
                Card::Map(k) => {
                    let W::Len(b) = &w else { return None };
                    let e = pb::dec(b)?;
                    let key = pb::get(&e, 1).map_or(Some(Self::zero(k)), |w| self.read(k, w))?;
                    let val = pb::get(&e, 2).map_or(Some(Self::zero(f.ty)), |w| self.read(f.ty, w))?;
                    let F::Map(es) = out.entry(num).or_insert(F::Map(vec![])) else { unreachable!() };
                    es.retain(|e| e.0 != key);
                    es.push((key, val));
                }
            }
        }
        Some(V::M(out))
    }
}

pub fn is_default(v: &V) -> bool {
    match v {
        V::B(b) => !b,
        V::I(i) => *i == 0,
        V::U(u) => *u == 0,
        V::D(d) => *d == 0.0,
        V::S(s) => s.is_empty(),
        V::Y(b) => b.is_empty(),
        _ => false,
    }
}

pub fn double(d: f64) -> String {
    let s = format!("{d:?}");
    if s.contains('.') || s.contains('e') {
        s
    } else {
        format!("{s}.0")
    }
}

pub fn json(rng: &mut Rng, depth: usize) -> J {
    match rng.below(if depth == 0 { 4 } else { 6 }) {
        0 => J::Null,
        1 => J::B(rng.pct(50)),
        2 => J::N(*rng.pick(&[0.0, -1.5, 3.0, 1e20])),
        3 => J::S(rng.pick(&["", "x", "é'\"", "\\"]).to_string()),
        4 => J::L((0..rng.below(3)).map(|_| json(rng, depth - 1)).collect()),
        _ => J::O((0..rng.below(3)).map(|i| (format!("n{i}"), json(rng, depth - 1))).collect()),
    }
}

fn enc_value(j: &J) -> Vec<u8> {
    pb::enc(&[match j {
        J::Null => (1, W::Varint(0)),
        J::N(d) => (2, W::Fixed64(d.to_bits())),
        J::S(s) => pb::s(3, s),
        J::B(b) => (4, W::Varint(*b as u64)),
        J::O(o) => (5, W::Len(enc_struct(o))),
        J::L(l) => (6, W::Len(pb::enc(&l.iter().map(|j| (1, W::Len(enc_value(j)))).collect::<Vec<_>>()))),
    }])
}
pub fn enc_struct(o: &BTreeMap<String, J>) -> Vec<u8> {
    pb::enc(&o.iter().map(|(k, v)| pb::sub(1, &[pb::s(1, k), (2, W::Len(enc_value(v)))])).collect::<Vec<_>>())
}
pub fn dec_value(b: &[u8]) -> Option<J> {
    let m = pb::dec(b)?;
    Some(match m.last() {
        None | Some((1, _)) => J::Null,
        Some((2, W::Fixed64(u))) => J::N(f64::from_bits(*u)),
        Some((3, W::Len(b))) => J::S(String::from_utf8(b.clone()).ok()?),
        Some((4, W::Varint(u))) => J::B(*u != 0),
        Some((5, W::Len(b))) => J::O(dec_struct(b)?),
        Some((6, W::Len(b))) => J::L(pb::dec(b)?.iter().map(|(_, w)| if let W::Len(b) = w { dec_value(b) } else { None }).collect::<Option<_>>()?),
        _ => return None,
    })
}
pub fn dec_struct(b: &[u8]) -> Option<BTreeMap<String, J>> {
    let m = pb::dec(b)?;
    let mut out = BTreeMap::new();
    for e in pb::all_msgs(&m, 1) {
        let v = match pb::get(&e, 2) {
            Some(W::Len(b)) => dec_value(b)?,
            _ => J::Null,
        };
        out.insert(pb::get_str(&e, 1), v);
    }
    Some(out)
}

/// google.protobuf.Struct built in an expression
pub fn jstruct(o: &BTreeMap<String, J>) -> String {
    format!("google.protobuf.Struct {{ fields: {{{}}} }}", o.iter().map(|(k, v)| format!("{}: {}", quote(k), jvalue(v))).collect::<Vec<_>>().join(", "))
}
fn jvalue(j: &J) -> String {
    format!(
        "google.protobuf.Value {{ {} }}",
        match j {
            J::Null => "null_value: 0".to_string(),
            J::B(b) => format!("bool_value: {b}"),
            J::N(d) => format!("number_value: {}", double(*d)),
            J::S(s) => format!("string_value: {}", quote(s)),
            J::L(l) => format!("list_value: google.protobuf.ListValue {{ values: [{}] }}", l.iter().map(jvalue).collect::<Vec<_>>().join(", ")),
            J::O(o) => format!("struct_value: {}", jstruct(o)),
        }
    )
}
/// the value as an expression sees it in a reply
pub fn jplain(j: &J) -> String {
    match j {
        J::Null => "null".into(),
        J::B(b) => b.to_string(),
        J::N(d) => double(*d),
        J::S(s) => quote(s),
        J::L(l) => format!("[{}]", l.iter().map(jplain).collect::<Vec<_>>().join(", ")),
        J::O(o) => format!("{{{}}}", o.iter().map(|(k, v)| format!("{}: {}", quote(k), jplain(v))).collect::<Vec<_>>().join(", ")),
    }
}
