//! The reference model: what values, types and operations mean, written without looking at how
//! mirror-mirror implements them.

use mirror_mirror::Value;

/// Kinds of scalars.
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub enum K {
    Usize,
    U8,
    U16,
    U32,
    U64,
    U128,
    I8,
    I16,
    I32,
    I64,
    I128,
    Bool,
    Char,
    F32,
    F64,
    Str,
}

pub const ALL_K: [K; 16] = [
    K::Usize,
    K::U8,
    K::U16,
    K::U32,
    K::U64,
    K::U128,
    K::I8,
    K::I16,
    K::I32,
    K::I64,
    K::I128,
    K::Bool,
    K::Char,
    K::F32,
    K::F64,
    K::Str,
];

impl K {
    pub fn type_name(self) -> &'static str {
        match self {
            K::Usize => "usize",
            K::U8 => "u8",
            K::U16 => "u16",
            K::U32 => "u32",
            K::U64 => "u64",
            K::U128 => "u128",
            K::I8 => "i8",
            K::I16 => "i16",
            K::I32 => "i32",
            K::I64 => "i64",
            K::I128 => "i128",
            K::Bool => "bool",
            K::Char => "char",
            K::F32 => "f32",
            K::F64 => "f64",
            K::Str => std::any::type_name::<String>(),
        }
    }

    pub fn zero(self) -> S {
        match self {
            K::Usize => S::Usize(0),
            K::U8 => S::U8(0),
            K::U16 => S::U16(0),
            K::U32 => S::U32(0),
            K::U64 => S::U64(0),
            K::U128 => S::U128(0),
            K::I8 => S::I8(0),
            K::I16 => S::I16(0),
            K::I32 => S::I32(0),
            K::I64 => S::I64(0),
            K::I128 => S::I128(0),
            K::Bool => S::Bool(false),
            K::Char => S::Char('\0'),
            K::F32 => S::F32(0),
            K::F64 => S::F64(0),
            K::Str => S::Str(String::new()),
        }
    }
}

/// Scalars. Floats are kept as bits.
#[derive(Clone, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub enum S {
    Usize(usize),
    U8(u8),
    U16(u16),
    U32(u32),
    U64(u64),
    U128(u128),
    I8(i8),
    I16(i16),
    I32(i32),
    I64(i64),
    I128(i128),
    Bool(bool),
    Char(char),
    F32(u32),
    F64(u64),
    Str(String),
}

impl S {
    pub fn k(&self) -> K {
        match self {
            S::Usize(_) => K::Usize,
            S::U8(_) => K::U8,
            S::U16(_) => K::U16,
            S::U32(_) => K::U32,
            S::U64(_) => K::U64,
            S::U128(_) => K::U128,
            S::I8(_) => K::I8,
            S::I16(_) => K::I16,
            S::I32(_) => K::I32,
            S::I64(_) => K::I64,
            S::I128(_) => K::I128,
            S::Bool(_) => K::Bool,
            S::Char(_) => K::Char,
            S::F32(_) => K::F32,
            S::F64(_) => K::F64,
            S::Str(_) => K::Str,
        }
    }

    /// Equality of the Rust values (`NaN != NaN`, `0.0 == -0.0`).
    pub fn rust_eq(&self, other: &S) -> bool {
        match (self, other) {
            (S::F32(a), S::F32(b)) => f32::from_bits(*a) == f32::from_bits(*b),
            (S::F64(a), S::F64(b)) => f64::from_bits(*a) == f64::from_bits(*b),
            _ => self == other,
        }
    }

    /// The integer this is, when it is one.
    pub fn int(&self) -> Option<Result<u128, ()>> {
        fn i(v: i128) -> Option<Result<u128, ()>> {
            Some(u128::try_from(v).map_err(|_| ()))
        }
        match self {
            S::Usize(v) => Some(Ok(*v as u128)),
            S::U8(v) => Some(Ok(*v as u128)),
            S::U16(v) => Some(Ok(*v as u128)),
            S::U32(v) => Some(Ok(*v as u128)),
            S::U64(v) => Some(Ok(*v as u128)),
            S::U128(v) => Some(Ok(*v)),
            S::I8(v) => i(*v as i128),
            S::I16(v) => i(*v as i128),
            S::I32(v) => i(*v as i128),
            S::I64(v) => i(*v as i128),
            S::I128(v) => i(*v),
            S::Bool(_) | S::Char(_) | S::F32(_) | S::F64(_) | S::Str(_) => None,
        }
    }

    /// The index this scalar is, when it is one.
    pub fn index(&self) -> Option<usize> {
        self.int()?.ok()?.try_into().ok()
    }

    /// Another scalar of the same kind, different from this one.
    pub fn alt(&self) -> S {
        match self {
            S::Usize(v) => S::Usize(if *v == 77 { 78 } else { 77 }),
            S::U8(v) => S::U8(if *v == 77 { 78 } else { 77 }),
            S::U16(v) => S::U16(if *v == 77 { 78 } else { 77 }),
            S::U32(v) => S::U32(if *v == 77 { 78 } else { 77 }),
            S::U64(v) => S::U64(if *v == 77 { 78 } else { 77 }),
            S::U128(v) => S::U128(if *v == 77 { 78 } else { 77 }),
            S::I8(v) => S::I8(if *v == -77 { -78 } else { -77 }),
            S::I16(v) => S::I16(if *v == -77 { -78 } else { -77 }),
            S::I32(v) => S::I32(if *v == -77 { -78 } else { -77 }),
            S::I64(v) => S::I64(if *v == -77 { -78 } else { -77 }),
            S::I128(v) => S::I128(if *v == -77 { -78 } else { -77 }),
            S::Bool(v) => S::Bool(!*v),
            S::Char(v) => S::Char(if *v == 'q' { 'r' } else { 'q' }),
            S::F32(v) => {
                S::F32(if f32::from_bits(*v) == 7.5 { 8.5f32 } else { 7.5f32 }.to_bits())
            }
            S::F64(v) => {
                S::F64(if f64::from_bits(*v) == 7.5 { 8.5f64 } else { 7.5f64 }.to_bits())
            }
            S::Str(v) => S::Str(if v == "alt" { "alt2" } else { "alt" }.to_owned()),
        }
    }

    pub fn to_value(&self) -> Value {
        match self {
            S::Usize(v) => Value::usize(*v),
            S::U8(v) => Value::u8(*v),
            S::U16(v) => Value::u16(*v),
            S::U32(v) => Value::u32(*v),
            S::U64(v) => Value::u64(*v),
            S::U128(v) => Value::u128(*v),
            S::I8(v) => Value::i8(*v),
            S::I16(v) => Value::i16(*v),
            S::I32(v) => Value::i32(*v),
            S::I64(v) => Value::i64(*v),
            S::I128(v) => Value::i128(*v),
            S::Bool(v) => Value::bool(*v),
            S::Char(v) => Value::char(*v),
            S::F32(v) => Value::f32(f32::from_bits(*v)),
            S::F64(v) => Value::f64(f64::from_bits(*v)),
            S::Str(v) => Value::String(v.clone()),
        }
    }
}

/// Types that show themselves as a scalar of another type.
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub enum V {
    NzUsize,
    NzU8,
    NzU16,
    NzU32,
    NzU64,
    NzU128,
    NzI8,
    NzI16,
    NzI32,
    NzI64,
    NzI128,
    Duration,
}

impl V {
    pub fn base(self) -> K {
        match self {
            V::NzUsize => K::Usize,
            V::NzU8 => K::U8,
            V::NzU16 => K::U16,
            V::NzU32 => K::U32,
            V::NzU64 => K::U64,
            V::NzU128 => K::U128,
            V::NzI8 => K::I8,
            V::NzI16 => K::I16,
            V::NzI32 => K::I32,
            V::NzI64 => K::I64,
            V::NzI128 => K::I128,
            V::Duration => K::F32,
        }
    }

    pub fn type_name(self) -> &'static str {
        use std::any::type_name;
        use std::num::*;
        match self {
            V::NzUsize => type_name::<NonZeroUsize>(),
            V::NzU8 => type_name::<NonZeroU8>(),
            V::NzU16 => type_name::<NonZeroU16>(),
            V::NzU32 => type_name::<NonZeroU32>(),
            V::NzU64 => type_name::<NonZeroU64>(),
            V::NzU128 => type_name::<NonZeroU128>(),
            V::NzI8 => type_name::<NonZeroI8>(),
            V::NzI16 => type_name::<NonZeroI16>(),
            V::NzI32 => type_name::<NonZeroI32>(),
            V::NzI64 => type_name::<NonZeroI64>(),
            V::NzI128 => type_name::<NonZeroI128>(),
            V::Duration => type_name::<std::time::Duration>(),
        }
    }

    /// The value with the given scalar representation, if there is one.
    pub fn from_scalar(self, s: &S) -> Option<M> {
        if s.k() != self.base() {
            return None;
        }
        if let S::F32(bits) = s {
            let secs = std::time::Duration::try_from_secs_f32(f32::from_bits(*bits)).ok()?;
            return Some(M::Via(
                self,
                S::F32(secs.as_secs_f32().to_bits()),
                secs.as_nanos(),
            ));
        }
        if *s == self.base().zero() {
            return None;
        }
        Some(M::Via(self, s.clone(), 0))
    }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub enum VK {
    Struct,
    Tuple,
    Unit,
}

/// The reflected content of a value.
#[derive(Clone, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub enum M {
    S(S),
    /// type, scalar shown, exact content
    Via(V, S, u128),
    Struct(Vec<(String, M)>),
    TupleStruct(Vec<M>),
    Tuple(Vec<M>),
    Enum(String, VK, Vec<(Option<String>, M)>),
    List(Vec<M>),
    Array(Vec<M>),
    /// In iteration order when taken from a value, sorted by key when computed; compare `canon`s.
    Map(Vec<(M, M)>),
    /// content, plus 256 for the second opaque type
    Opaque(u16),
}

/// Canonical form of the entries of a map.
pub fn map(mut entries: Vec<(M, M)>) -> M {
    entries.sort();
    M::Map(entries)
}

impl M {
    /// With durations reduced to what their scalar shows.
    pub fn rounded(&self) -> M {
        match self {
            M::Via(v, s, _) => v.from_scalar(s).unwrap_or_else(|| self.clone()),
            M::S(_) | M::Opaque(_) => self.clone(),
            M::Struct(f) => M::Struct(f.iter().map(|(n, m)| (n.clone(), m.rounded())).collect()),
            M::TupleStruct(f) => M::TupleStruct(f.iter().map(M::rounded).collect()),
            M::Tuple(f) => M::Tuple(f.iter().map(M::rounded).collect()),
            M::List(f) => M::List(f.iter().map(M::rounded).collect()),
            M::Array(f) => M::Array(f.iter().map(M::rounded).collect()),
            M::Enum(v, k, f) => M::Enum(v.clone(), *k, f.iter().map(|(n, m)| (n.clone(), m.rounded())).collect()),
            M::Map(e) => M::Map(e.iter().map(|(k, v)| (k.rounded(), v.rounded())).collect()),
        }
    }

    /// With the entries of all maps sorted.
    pub fn canon(&self) -> M {
        match self {
            M::S(_) | M::Via(..) | M::Opaque(_) => self.clone(),
            M::Struct(f) => M::Struct(f.iter().map(|(n, m)| (n.clone(), m.canon())).collect()),
            M::TupleStruct(f) => M::TupleStruct(f.iter().map(M::canon).collect()),
            M::Tuple(f) => M::Tuple(f.iter().map(M::canon).collect()),
            M::List(f) => M::List(f.iter().map(M::canon).collect()),
            M::Array(f) => M::Array(f.iter().map(M::canon).collect()),
            M::Enum(n, k, f) => M::Enum(
                n.clone(),
                *k,
                f.iter().map(|(n, m)| (n.clone(), m.canon())).collect(),
            ),
            M::Map(e) => map(e.iter().map(|(k, v)| (k.canon(), v.canon())).collect()),
        }
    }

    pub fn same(&self, other: &M) -> bool {
        self.canon() == other.canon()
    }

    pub fn children(&self) -> Vec<&M> {
        match self {
            M::S(_) | M::Via(..) | M::Opaque(_) => vec![],
            M::Struct(f) => f.iter().map(|(_, m)| m).collect(),
            M::TupleStruct(f) | M::Tuple(f) | M::List(f) | M::Array(f) => f.iter().collect(),
            M::Enum(_, _, f) => f.iter().map(|(_, m)| m).collect(),
            M::Map(f) => f.iter().map(|(_, m)| m).collect(),
        }
    }

    pub fn child_mut(&mut self, idx: usize) -> &mut M {
        match self {
            M::S(_) | M::Via(..) | M::Opaque(_) => panic!("no children"),
            M::Struct(f) => &mut f[idx].1,
            M::TupleStruct(f) | M::Tuple(f) | M::List(f) | M::Array(f) => &mut f[idx],
            M::Enum(_, _, f) => &mut f[idx].1,
            M::Map(f) => &mut f[idx].1,
        }
    }

    pub fn get(&self, idx: &[usize]) -> &M {
        match idx {
            [] => self,
            [i, rest @ ..] => self.children()[*i].get(rest),
        }
    }

    pub fn get_mut(&mut self, idx: &[usize]) -> &mut M {
        match idx {
            [] => self,
            [i, rest @ ..] => self.child_mut(*i).get_mut(rest),
        }
    }

    pub fn kind(&self) -> &'static str {
        match self {
            M::S(_) | M::Via(..) => "Scalar",
            M::Struct(_) => "Struct",
            M::TupleStruct(_) => "TupleStruct",
            M::Tuple(_) => "Tuple",
            M::Enum(..) => "Enum",
            M::List(_) => "List",
            M::Array(_) => "Array",
            M::Map(_) => "Map",
            M::Opaque(_) => "Opaque",
        }
    }

    pub fn has_opaque(&self) -> bool {
        match self {
            M::Opaque(_) => true,
            M::Map(e) => e.iter().any(|(k, v)| k.has_opaque() || v.has_opaque()),
            _ => self.children().iter().any(|c| c.has_opaque()),
        }
    }

    pub fn has_via(&self) -> bool {
        match self {
            M::Via(..) => true,
            M::Map(e) => e.iter().any(|(k, v)| k.has_via() || v.has_via()),
            _ => self.children().iter().any(|c| c.has_via()),
        }
    }

    /// The content of the type erased form of a value with this content.
    pub fn erased(&self) -> M {
        match self {
            M::S(s) => M::S(s.clone()),
            M::Via(_, s, _) => M::S(s.clone()),
            M::Opaque(n) => M::S(S::U8(*n as u8)),
            M::Struct(f) => M::Struct(f.iter().map(|(n, m)| (n.clone(), m.erased())).collect()),
            M::TupleStruct(f) => M::TupleStruct(f.iter().map(M::erased).collect()),
            M::Tuple(f) => M::Tuple(f.iter().map(M::erased).collect()),
            M::List(f) | M::Array(f) => M::List(f.iter().map(M::erased).collect()),
            M::Enum(n, k, f) => M::Enum(
                n.clone(),
                *k,
                f.iter().map(|(n, m)| (n.clone(), m.erased())).collect(),
            ),
            M::Map(e) => map(e.iter().map(|(k, v)| (k.erased(), v.erased())).collect()),
        }
    }

    /// A type erased value with (the erased form of) this content.
    pub fn to_value(&self) -> Value {
        use mirror_mirror::enum_::EnumValue;
        use mirror_mirror::struct_::StructValue;
        use mirror_mirror::tuple::TupleValue;
        use mirror_mirror::tuple_struct::TupleStructValue;
        match self {
            M::S(s) | M::Via(_, s, _) => s.to_value(),
            M::Opaque(n) => Value::u8(*n as u8),
            M::Struct(f) => {
                let mut out = StructValue::new();
                for (n, m) in f {
                    out.set_field(n.clone(), m.to_value());
                }
                out.into()
            }
            M::TupleStruct(f) => {
                let mut out = TupleStructValue::new();
                for m in f {
                    out.push_field(m.to_value());
                }
                Value::TupleStructValue(out)
            }
            M::Tuple(f) => {
                let mut out = TupleValue::new();
                for m in f {
                    out.push_field(m.to_value());
                }
                Value::TupleValue(out)
            }
            M::List(f) | M::Array(f) => Value::List(f.iter().map(M::to_value).collect()),
            M::Enum(n, VK::Unit, _) => EnumValue::new_unit_variant(n.clone()).into(),
            M::Enum(n, VK::Tuple, f) => {
                let mut out = EnumValue::new_tuple_variant(n.clone());
                for (_, m) in f {
                    out.push_tuple_field(m.to_value());
                }
                out.finish().into()
            }
            M::Enum(n, VK::Struct, f) => {
                let mut out = EnumValue::new_struct_variant(n.clone());
                for (name, m) in f {
                    out.set_struct_field(name.clone().unwrap(), m.to_value());
                }
                out.finish().into()
            }
            M::Map(e) => Value::Map(
                e.iter()
                    .map(|(k, v)| (k.to_value(), v.to_value()))
                    .collect(),
            ),
        }
    }

    /// Whether type erased values with this content are equal (floats compare with all NaNs equal
    /// and both zeros equal).
    pub fn value_eq(&self, other: &M) -> bool {
        self.key_norm() == other.key_norm()
    }

    /// Representative of the class of contents that are equal as type erased values.
    pub fn key_norm(&self) -> M {
        match self {
            M::S(S::F32(b)) => {
                let f = f32::from_bits(*b);
                M::S(S::F32(if f.is_nan() {
                    f32::NAN.to_bits()
                } else if f == 0.0 {
                    0
                } else {
                    *b
                }))
            }
            M::S(S::F64(b)) => {
                let f = f64::from_bits(*b);
                M::S(S::F64(if f.is_nan() {
                    f64::NAN.to_bits()
                } else if f == 0.0 {
                    0
                } else {
                    *b
                }))
            }
            M::S(_) | M::Via(..) | M::Opaque(_) => self.clone(),
            M::Struct(f) => M::Struct(f.iter().map(|(n, m)| (n.clone(), m.key_norm())).collect()),
            M::TupleStruct(f) => M::TupleStruct(f.iter().map(M::key_norm).collect()),
            M::Tuple(f) => M::Tuple(f.iter().map(M::key_norm).collect()),
            M::List(f) => M::List(f.iter().map(M::key_norm).collect()),
            M::Array(f) => M::Array(f.iter().map(M::key_norm).collect()),
            M::Enum(n, k, f) => M::Enum(
                n.clone(),
                *k,
                f.iter().map(|(n, m)| (n.clone(), m.key_norm())).collect(),
            ),
            M::Map(e) => map(e
                .iter()
                .map(|(k, v)| (k.key_norm(), v.key_norm()))
                .collect()),
        }
    }
}

// ---------------------------------------------------------------------------------------------
// Types

pub type Ty = fn() -> T;

#[derive(Clone)]
pub struct FieldT {
    pub name: Option<&'static str>,
    pub ty: Ty,
    /// what the custom reader of the field does
    pub with: Option<fn(&M) -> R>,
    pub meta: Vec<(&'static str, fn() -> Value)>,
    pub docs: Vec<&'static str>,
}

#[derive(Clone)]
pub struct VariantT {
    pub name: &'static str,
    pub kind: VK,
    pub fields: Vec<FieldT>,
    pub meta: Vec<(&'static str, fn() -> Value)>,
    pub docs: Vec<&'static str>,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum DynKind {
    Value,
    Struct,
    TupleStruct,
    Tuple,
    Enum,
}

/// The reflected part of a type.
#[derive(Clone)]
pub enum T {
    S(K),
    Via(V),
    Struct {
        name: &'static str,
        fields: Vec<FieldT>,
        meta: Vec<(&'static str, fn() -> Value)>,
        docs: Vec<&'static str>,
    },
    TupleStruct {
        name: &'static str,
        fields: Vec<FieldT>,
        meta: Vec<(&'static str, fn() -> Value)>,
        docs: Vec<&'static str>,
    },
    Enum {
        name: &'static str,
        variants: Vec<VariantT>,
        skipped: Vec<&'static str>,
        meta: Vec<(&'static str, fn() -> Value)>,
        docs: Vec<&'static str>,
    },
    Tuple {
        name: &'static str,
        elems: Vec<Ty>,
    },
    List {
        name: &'static str,
        elem: Ty,
    },
    Array {
        name: &'static str,
        elem: Ty,
        len: usize,
    },
    Map {
        name: &'static str,
        key: Ty,
        value: Ty,
    },
    /// A type that shows nothing of itself.
    Opaque {
        name: &'static str,
        meta: Vec<(&'static str, fn() -> Value)>,
        default: Option<u8>,
    },
    Dyn(DynKind),
}

impl T {
    pub fn type_name(&self) -> &'static str {
        use std::any::type_name;
        match self {
            T::S(k) => k.type_name(),
            T::Via(v) => v.type_name(),
            T::Struct { name, .. }
            | T::TupleStruct { name, .. }
            | T::Enum { name, .. }
            | T::Tuple { name, .. }
            | T::List { name, .. }
            | T::Array { name, .. }
            | T::Map { name, .. }
            | T::Opaque { name, .. } => name,
            T::Dyn(DynKind::Value) => type_name::<Value>(),
            T::Dyn(DynKind::Struct) => type_name::<mirror_mirror::struct_::StructValue>(),
            T::Dyn(DynKind::TupleStruct) => {
                type_name::<mirror_mirror::tuple_struct::TupleStructValue>()
            }
            T::Dyn(DynKind::Tuple) => type_name::<mirror_mirror::tuple::TupleValue>(),
            T::Dyn(DynKind::Enum) => type_name::<mirror_mirror::enum_::EnumValue>(),
        }
    }

    /// The kind of the description of the type.
    pub fn kind(&self) -> &'static str {
        match self {
            T::S(_) => "Scalar",
            T::Struct { .. } => "Struct",
            T::TupleStruct { .. } => "TupleStruct",
            T::Enum { .. } => "Enum",
            T::Tuple { .. } => "Tuple",
            T::List { .. } => "List",
            T::Array { .. } => "Array",
            T::Map { .. } => "Map",
            T::Via(_) | T::Opaque { .. } | T::Dyn(_) => "Opaque",
        }
    }

    /// Types of the children (as in `M::children`) of a value of this type. `None` when values
    /// don't tell (type erased values).
    pub fn child_type(&self, m: &M, idx: usize) -> T {
        match (self, m) {
            (T::Struct { fields, .. }, _) | (T::TupleStruct { fields, .. }, _) => {
                (fields[idx].ty)()
            }
            (T::Enum { variants, .. }, M::Enum(name, ..)) => {
                let v = variants.iter().find(|v| v.name == name).unwrap();
                (v.fields[idx].ty)()
            }
            (T::Tuple { elems, .. }, _) => elems[idx](),
            (T::List { elem, .. }, _) | (T::Array { elem, .. }, _) => elem(),
            (T::Map { value, .. }, _) => value(),
            (T::Dyn(_), _) => T::Dyn(DynKind::Value),
            (T::S(_) | T::Via(_) | T::Opaque { .. } | T::Enum { .. }, _) => {
                panic!("no children")
            }
        }
    }

    pub fn is_known(&self) -> bool {
        !matches!(self, T::Dyn(_))
    }
}

/// Outcome of reading a value as a type.
#[derive(Clone, Debug, PartialEq, Eq)]
pub enum R {
    Yes(M),
    No,
    /// The documentation doesn't say. Only "doesn't panic" is checked.
    Unspec,
}

fn all<I: Iterator<Item = R>>(iter: I) -> Result<Vec<M>, R> {
    let mut out = Vec::new();
    let mut unspec = false;
    for r in iter {
        match r {
            R::Yes(m) => out.push(m),
            R::No => return Err(R::No),
            R::Unspec => unspec = true,
        }
    }
    if unspec {
        Err(R::Unspec)
    } else {
        Ok(out)
    }
}

fn done(r: Result<Vec<M>, R>, f: impl FnOnce(Vec<M>) -> M) -> R {
    match r {
        Ok(ms) => R::Yes(f(ms)),
        Err(r) => r,
    }
}

fn conv_field(field: &FieldT, m: Option<&M>) -> R {
    match m {
        None => R::No,
        Some(m) => match field.with {
            Some(with) => with(m),
            None => conv(&(field.ty)(), m),
        },
    }
}

/// `FromReflect::from_reflect` of a value with content `m` as type `t`.
pub fn conv(t: &T, m: &M) -> R {
    match t {
        T::S(k) => match m {
            M::S(s) if s.k() == *k => R::Yes(m.clone()),
            _ => R::No,
        },
        T::Via(v) => match m {
            M::Via(w, ..) if v == w => R::Yes(m.clone()),
            M::S(s) => v.from_scalar(s).map_or(R::No, R::Yes),
            _ => R::No,
        },
        T::Opaque { name, .. } => match m {
            M::Opaque(n) if (*n >= 256) == name.ends_with("OpB") => R::Yes(m.clone()),
            M::S(S::U8(n)) => {
                R::Yes(M::Opaque(*n as u16 + if name.ends_with("OpB") { 256 } else { 0 }))
            }
            _ => R::No,
        },
        T::Struct { fields, .. } => match m {
            M::Struct(src) => done(
                all(fields.iter().map(|f| {
                    conv_field(
                        f,
                        src.iter()
                            .find(|(n, _)| n == f.name.unwrap())
                            .map(|(_, m)| m),
                    )
                })),
                |ms| {
                    M::Struct(
                        fields
                            .iter()
                            .zip(ms)
                            .map(|(f, m)| (f.name.unwrap().to_owned(), m))
                            .collect(),
                    )
                },
            ),
            _ => R::No,
        },
        T::TupleStruct { fields, .. } => match m {
            M::TupleStruct(src) => done(
                all(fields
                    .iter()
                    .enumerate()
                    .map(|(i, f)| conv_field(f, src.get(i)))),
                M::TupleStruct,
            ),
            _ => R::No,
        },
        T::Tuple { elems, .. } => match m {
            M::Tuple(src) => done(
                all(elems
                    .iter()
                    .enumerate()
                    .map(|(i, e)| src.get(i).map_or(R::No, |m| conv(&e(), m)))),
                M::Tuple,
            ),
            _ => R::No,
        },
        T::Enum { variants, .. } => match m {
            M::Enum(name, kind, src) => {
                let Some(v) = variants.iter().find(|v| v.name == name) else {
                    return R::No;
                };
                if v.kind != *kind {
                    return R::Unspec;
                }
                done(
                    all(v.fields.iter().enumerate().map(|(i, f)| match f.name {
                        Some(fname) => conv_field(
                            f,
                            src.iter()
                                .find(|(n, _)| n.as_deref() == Some(fname))
                                .map(|(_, m)| m),
                        ),
                        None => conv_field(f, src.get(i).map(|(_, m)| m)),
                    })),
                    |ms| {
                        M::Enum(
                            name.clone(),
                            v.kind,
                            v.fields
                                .iter()
                                .zip(ms)
                                .map(|(f, m)| (f.name.map(str::to_owned), m))
                                .collect(),
                        )
                    },
                )
            }
            _ => R::No,
        },
        T::List { elem, .. } => match m {
            M::List(src) => done(all(src.iter().map(|m| conv(&elem(), m))), M::List),
            M::Array(_) => R::Unspec,
            _ => R::No,
        },
        T::Array { elem, len, .. } => match m {
            M::List(src) | M::Array(src) => {
                if src.len() != *len {
                    return R::No;
                }
                done(all(src.iter().map(|m| conv(&elem(), m))), M::Array)
            }
            _ => R::No,
        },
        T::Map { key, value, .. } => match m {
            M::Map(src) => {
                let keys = all(src.iter().map(|(k, _)| conv(&key(), k)));
                let values = all(src.iter().map(|(_, v)| conv(&value(), v)));
                match (keys, values) {
                    (Err(R::No), _) | (_, Err(R::No)) => R::No,
                    (Ok(keys), Ok(values)) => {
                        let mut out: Vec<(M, M)> = Vec::new();
                        for (k, v) in keys.into_iter().zip(values) {
                            if out.iter().any(|(o, _)| o.value_eq(&k)) {
                                // two keys that become the same
                                return R::Unspec;
                            }
                            out.push((k, v));
                        }
                        R::Yes(map(out))
                    }
                    _ => R::Unspec,
                }
            }
            _ => R::No,
        },
        T::Dyn(kind) => {
            let fits = match (kind, m) {
                (DynKind::Value, _) => true,
                (DynKind::Struct, M::Struct(_)) => true,
                (DynKind::TupleStruct, M::TupleStruct(_)) => true,
                (DynKind::Tuple, M::Tuple(_)) => true,
                (DynKind::Enum, M::Enum(..)) => true,
                _ => false,
            };
            if fits {
                R::Yes(m.erased())
            } else {
                R::No
            }
        }
    }
}

/// The content of a value of type `t` with content `a` after patching it with a value with content
/// `b`. `None` when the documentation doesn't say.
pub fn patch(t: &T, a: &M, b: &M) -> Option<M> {
    Some(match (t, a) {
        (T::S(_), M::S(s)) | (T::Dyn(_), M::S(s)) => match b {
            M::S(n) if n.k() == s.k() => b.clone(),
            _ => a.clone(),
        },
        (T::Via(_), _) | (T::Opaque { .. }, _) => match conv(t, b) {
            R::Yes(m) => m,
            R::No => a.clone(),
            R::Unspec => return None,
        },
        (T::Struct { .. } | T::Dyn(_), M::Struct(fields)) => match b {
            M::Struct(src) => {
                let mut out = vec![];
                for (i, (name, m)) in fields.iter().enumerate() {
                    out.push((
                        name.clone(),
                        match src.iter().find(|(n, _)| n == name) {
                            Some((_, new)) => patch(&t.child_type(a, i), m, new)?,
                            None => m.clone(),
                        },
                    ));
                }
                M::Struct(out)
            }
            _ => a.clone(),
        },
        (T::TupleStruct { .. } | T::Dyn(_), M::TupleStruct(fields)) => match b {
            M::TupleStruct(src) => M::TupleStruct(patch_seq(t, a, fields, src)?),
            _ => a.clone(),
        },
        (T::Tuple { .. } | T::Dyn(_), M::Tuple(fields)) => match b {
            M::Tuple(src) => M::Tuple(patch_seq(t, a, fields, src)?),
            _ => a.clone(),
        },
        (T::List { .. } | T::Dyn(_), M::List(fields)) => match b {
            M::List(src) => M::List(patch_seq(t, a, fields, src)?),
            M::Array(_) => return None,
            _ => a.clone(),
        },
        (T::Array { .. }, M::Array(fields)) => match b {
            M::List(src) | M::Array(src) => M::Array(patch_seq(t, a, fields, src)?),
            _ => a.clone(),
        },
        (T::Enum { skipped, .. }, M::Enum(name, kind, fields)) => match b {
            M::Enum(bname, bkind, bfields) => {
                if skipped.contains(&bname.as_str()) || skipped.contains(&name.as_str()) {
                    return None;
                }
                match conv(t, b) {
                    R::Yes(m) => m,
                    R::Unspec => return None,
                    R::No => {
                        if name == bname {
                            if kind != bkind {
                                return None;
                            }
                            patch_enum_fields(t, a, name, *kind, fields, bfields)?
                        } else {
                            a.clone()
                        }
                    }
                }
            }
            _ => a.clone(),
        },
        (T::Dyn(_), M::Enum(name, kind, fields)) => match b {
            M::Enum(bname, bkind, bfields) => {
                if name == bname {
                    if kind != bkind {
                        return None;
                    }
                    patch_enum_fields(t, a, name, *kind, fields, bfields)?
                } else {
                    b.erased()
                }
            }
            _ => a.clone(),
        },
        (T::Map { .. } | T::Dyn(_), M::Map(entries)) => match b {
            M::Map(src) => {
                let key_t = match t {
                    T::Map { key, .. } => key(),
                    _ => T::Dyn(DynKind::Value),
                };
                let value_t = match t {
                    T::Map { value, .. } => value(),
                    _ => T::Dyn(DynKind::Value),
                };
                let mut out = entries.clone();
                let mut hit = vec![false; out.len()];
                for (k, v) in src {
                    let k = match conv(&key_t, k) {
                        R::Yes(k) => k,
                        R::No => continue,
                        R::Unspec => return None,
                    };
                    if let Some(i) = out.iter().position(|(o, _)| o.value_eq(&k)) {
                        if hit[i] {
                            // two keys that become the same
                            return None;
                        }
                        hit[i] = true;
                        out[i].1 = patch(&value_t, &out[i].1, v)?;
                    }
                }
                map(out)
            }
            _ => a.clone(),
        },
        (T::Dyn(_), M::Via(..) | M::Array(_) | M::Opaque(_)) => {
            panic!("type erased values don't contain those")
        }
        _ => panic!("content doesn't fit type {}: {:?}", t.type_name(), a),
    })
}

fn patch_seq(t: &T, a: &M, fields: &[M], src: &[M]) -> Option<Vec<M>> {
    fields
        .iter()
        .enumerate()
        .map(|(i, m)| match src.get(i) {
            Some(new) => patch(&t.child_type(a, i), m, new),
            None => Some(m.clone()),
        })
        .collect()
}

fn patch_enum_fields(
    t: &T,
    a: &M,
    name: &str,
    kind: VK,
    fields: &[(Option<String>, M)],
    src: &[(Option<String>, M)],
) -> Option<M> {
    let mut out = vec![];
    for (i, (fname, m)) in fields.iter().enumerate() {
        let new = match fname {
            Some(_) => src.iter().find(|(n, _)| n == fname).map(|(_, m)| m),
            None => src.get(i).map(|(_, m)| m),
        };
        out.push((
            fname.clone(),
            match new {
                Some(new) => patch(&t.child_type(a, i), m, new)?,
                None => m.clone(),
            },
        ));
    }
    Some(M::Enum(name.to_owned(), kind, out))
}

/// Reflected equality: `Some(equal)`, or `None` when an opaque part makes the answer unknown.
pub fn eq(a: &M, b: &M) -> Option<bool> {
    fn fold<I: Iterator<Item = Option<bool>>>(iter: I) -> Option<bool> {
        let mut out = Some(true);
        for r in iter {
            match r {
                Some(true) => {}
                Some(false) => return Some(false),
                None => out = None,
            }
        }
        out
    }
    match (a, b) {
        (M::Opaque(_), _) | (_, M::Opaque(_)) => None,
        (M::S(a) | M::Via(_, a, _), M::S(b) | M::Via(_, b, _)) => Some(a.rust_eq(b)),
        (M::Struct(a), M::Struct(b)) => {
            if a.len() != b.len() {
                return Some(false);
            }
            fold(a.iter().map(|(n, m)| {
                match b.iter().find(|(o, _)| o == n) {
                    Some((_, o)) => eq(m, o),
                    None => Some(false),
                }
            }))
        }
        (M::TupleStruct(a), M::TupleStruct(b))
        | (M::Tuple(a), M::Tuple(b))
        | (M::List(a), M::List(b))
        | (M::Array(a), M::Array(b)) => {
            if a.len() != b.len() {
                return Some(false);
            }
            fold(a.iter().zip(b).map(|(a, b)| eq(a, b)))
        }
        (M::Enum(an, ak, af), M::Enum(bn, bk, bf)) => {
            if an != bn || ak != bk || af.len() != bf.len() {
                return Some(false);
            }
            if *ak == VK::Struct {
                fold(af.iter().map(|(n, m)| {
                    match bf.iter().find(|(o, _)| o == n) {
                        Some((_, o)) => eq(m, o),
                        None => Some(false),
                    }
                }))
            } else {
                fold(af.iter().zip(bf).map(|((_, a), (_, b))| eq(a, b)))
            }
        }
        (M::Map(a), M::Map(b)) => {
            if a.len() != b.len() {
                return Some(false);
            }
            // every entry has a partner
            let mut out = Some(true);
            let mut left: Vec<&(M, M)> = b.iter().collect();
            for (k, v) in a {
                let pairs: Vec<_> = left
                    .iter()
                    .map(|(l, w)| fold([eq(k, l), eq(v, w)].into_iter()))
                    .collect();
                match pairs.iter().position(|r| *r == Some(true)) {
                    Some(i) => {
                        left.remove(i);
                    }
                    None => {
                        if pairs.contains(&None) {
                            out = None;
                        } else {
                            return Some(false);
                        }
                    }
                }
            }
            out
        }
        _ => Some(false),
    }
}

/// The default value (type erased) of a type.
pub fn default(t: &T, depth: usize) -> Option<M> {
    assert!(depth < 40, "the default of {} is infinite", t.type_name());
    let fields = |fields: &[FieldT]| -> Option<Vec<(Option<String>, M)>> {
        fields
            .iter()
            .map(|f| {
                Some((
                    f.name.map(str::to_owned),
                    default(&(f.ty)(), depth + 1)?,
                ))
            })
            .collect()
    };
    match t {
        T::S(k) => Some(M::S(k.zero())),
        T::Via(_) | T::Dyn(_) => None,
        T::Opaque { default, .. } => default.map(|n| M::S(S::U8(n))),
        T::Struct { fields: f, .. } => Some(M::Struct(
            fields(f)?
                .into_iter()
                .map(|(n, m)| (n.unwrap(), m))
                .collect(),
        )),
        T::TupleStruct { fields: f, .. } => Some(M::TupleStruct(
            fields(f)?.into_iter().map(|(_, m)| m).collect(),
        )),
        T::Tuple { elems, .. } => Some(M::Tuple(
            elems
                .iter()
                .map(|e| default(&e(), depth + 1))
                .collect::<Option<_>>()?,
        )),
        T::Enum { variants, .. } => default_variant(variants.first()?, depth),
        T::List { .. } => Some(M::List(vec![])),
        T::Map { .. } => Some(M::Map(vec![])),
        T::Array { elem, len, .. } => {
            if *len == 0 {
                return Some(M::List(vec![]));
            }
            let e = default(&elem(), depth + 1)?;
            Some(M::List(vec![e; *len]))
        }
    }
}

pub fn default_variant(v: &VariantT, depth: usize) -> Option<M> {
    Some(M::Enum(
        v.name.to_owned(),
        v.kind,
        v.fields
            .iter()
            .map(|f| {
                Some((
                    f.name.map(str::to_owned),
                    default(&(f.ty)(), depth + 1)?,
                ))
            })
            .collect::<Option<_>>()?,
    ))
}

/// One call a visitor gets.
#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Visit {
    Scalar(S),
    Opaque(&'static str, M),
}

/// The calls a visitor gets for a value of type `t` with content `m`.
pub fn visits(t: &T, m: &M, out: &mut Vec<Visit>) {
    match (t, m) {
        (T::S(_), M::S(s)) => out.push(Visit::Scalar(s.clone())),
        (T::Via(_) | T::Opaque { .. } | T::Dyn(_), _) => {
            out.push(Visit::Opaque(t.type_name(), m.clone()))
        }
        (T::Map { key, value, .. }, M::Map(entries)) => {
            for (k, v) in entries {
                visits(&key(), k, out);
                visits(&value(), v, out);
            }
        }
        _ => {
            for (i, c) in m.children().into_iter().enumerate() {
                visits(&t.child_type(m, i), c, out);
            }
        }
    }
}

/// Positions where something with `len` parts has nothing: just past the end, and ones that a
/// narrower index would take for a valid one.
pub fn past(len: usize) -> impl Iterator<Item = usize> {
    let wide = [1 << 7, 1 << 8, 1 << 15, 1 << 16, 1 << 31, 1 << 32, 1 << 48, 1 << 63];
    let near = [len, len + 1, len + 7, len + (1 << 8), len + (1 << 16), len + (1 << 32), len + (1 << 63)];
    near.into_iter()
        .chain(wide.into_iter().flat_map(|i| [i, i + 1]))
        .chain([usize::MAX - 60, usize::MAX - 1, usize::MAX])
        .filter(move |i| *i >= len)
}
