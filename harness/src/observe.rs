//! Reading the content of a reflected value through the reflection interface.

use crate::model::*;
use mirror_mirror::enum_::{VariantField, VariantFieldMut, VariantKind};
use mirror_mirror::{Reflect, ReflectMut, ReflectRef, ScalarMut, ScalarOwned, ScalarRef};
use std::num::*;

pub fn scalar(s: ScalarRef<'_>) -> S {
    match s {
        ScalarRef::usize(v) => S::Usize(v),
        ScalarRef::u8(v) => S::U8(v),
        ScalarRef::u16(v) => S::U16(v),
        ScalarRef::u32(v) => S::U32(v),
        ScalarRef::u64(v) => S::U64(v),
        ScalarRef::u128(v) => S::U128(v),
        ScalarRef::i8(v) => S::I8(v),
        ScalarRef::i16(v) => S::I16(v),
        ScalarRef::i32(v) => S::I32(v),
        ScalarRef::i64(v) => S::I64(v),
        ScalarRef::i128(v) => S::I128(v),
        ScalarRef::bool(v) => S::Bool(v),
        ScalarRef::char(v) => S::Char(v),
        ScalarRef::f32(v) => S::F32(v.to_bits()),
        ScalarRef::f64(v) => S::F64(v.to_bits()),
        ScalarRef::String(v) => S::Str(v.clone()),
    }
}

pub fn scalar_mut(s: &ScalarMut<'_>) -> S {
    match s {
        ScalarMut::usize(v) => S::Usize(**v),
        ScalarMut::u8(v) => S::U8(**v),
        ScalarMut::u16(v) => S::U16(**v),
        ScalarMut::u32(v) => S::U32(**v),
        ScalarMut::u64(v) => S::U64(**v),
        ScalarMut::u128(v) => S::U128(**v),
        ScalarMut::i8(v) => S::I8(**v),
        ScalarMut::i16(v) => S::I16(**v),
        ScalarMut::i32(v) => S::I32(**v),
        ScalarMut::i64(v) => S::I64(**v),
        ScalarMut::i128(v) => S::I128(**v),
        ScalarMut::bool(v) => S::Bool(**v),
        ScalarMut::char(v) => S::Char(**v),
        ScalarMut::f32(v) => S::F32(v.to_bits()),
        ScalarMut::f64(v) => S::F64(v.to_bits()),
        ScalarMut::String(v) => S::Str((**v).clone()),
    }
}

pub fn scalar_owned(s: &ScalarOwned) -> S {
    match s {
        ScalarOwned::usize(v) => S::Usize(*v),
        ScalarOwned::u8(v) => S::U8(*v),
        ScalarOwned::u16(v) => S::U16(*v),
        ScalarOwned::u32(v) => S::U32(*v),
        ScalarOwned::u64(v) => S::U64(*v),
        ScalarOwned::u128(v) => S::U128(*v),
        ScalarOwned::i8(v) => S::I8(*v),
        ScalarOwned::i16(v) => S::I16(*v),
        ScalarOwned::i32(v) => S::I32(*v),
        ScalarOwned::i64(v) => S::I64(*v),
        ScalarOwned::i128(v) => S::I128(*v),
        ScalarOwned::bool(v) => S::Bool(*v),
        ScalarOwned::char(v) => S::Char(*v),
        ScalarOwned::f32(v) => S::F32(v.to_bits()),
        ScalarOwned::f64(v) => S::F64(v.to_bits()),
        ScalarOwned::String(v) => S::Str(v.clone()),
    }
}

/// Write a scalar of the same kind through a mutable view. Panics when the kinds differ.
pub fn set_scalar(dst: ScalarMut<'_>, s: &S) {
    match (dst, s) {
        (ScalarMut::usize(d), S::Usize(v)) => *d = *v,
        (ScalarMut::u8(d), S::U8(v)) => *d = *v,
        (ScalarMut::u16(d), S::U16(v)) => *d = *v,
        (ScalarMut::u32(d), S::U32(v)) => *d = *v,
        (ScalarMut::u64(d), S::U64(v)) => *d = *v,
        (ScalarMut::u128(d), S::U128(v)) => *d = *v,
        (ScalarMut::i8(d), S::I8(v)) => *d = *v,
        (ScalarMut::i16(d), S::I16(v)) => *d = *v,
        (ScalarMut::i32(d), S::I32(v)) => *d = *v,
        (ScalarMut::i64(d), S::I64(v)) => *d = *v,
        (ScalarMut::i128(d), S::I128(v)) => *d = *v,
        (ScalarMut::bool(d), S::Bool(v)) => *d = *v,
        (ScalarMut::char(d), S::Char(v)) => *d = *v,
        (ScalarMut::f32(d), S::F32(v)) => *d = f32::from_bits(*v),
        (ScalarMut::f64(d), S::F64(v)) => *d = f64::from_bits(*v),
        (ScalarMut::String(d), S::Str(v)) => *d = v.clone(),
        (d, s) => panic!("scalar view has kind {d:?}, expected the kind of {s:?}"),
    }
}

pub fn via(r: &dyn Reflect) -> Option<M> {
    let any = r.as_any();
    macro_rules! nz {
        ($($t:ident $v:ident $s:ident;)*) => {
            $(
                if let Some(n) = any.downcast_ref::<$t>() {
                    return Some(M::Via(V::$v, S::$s(n.get()), 0));
                }
            )*
        };
    }
    nz! {
        NonZeroUsize NzUsize Usize;
        NonZeroU8 NzU8 U8;
        NonZeroU16 NzU16 U16;
        NonZeroU32 NzU32 U32;
        NonZeroU64 NzU64 U64;
        NonZeroU128 NzU128 U128;
        NonZeroI8 NzI8 I8;
        NonZeroI16 NzI16 I16;
        NonZeroI32 NzI32 I32;
        NonZeroI64 NzI64 I64;
        NonZeroI128 NzI128 I128;
    }
    if let Some(d) = any.downcast_ref::<std::time::Duration>() {
        return Some(M::Via(
            V::Duration,
            S::F32(d.as_secs_f32().to_bits()),
            d.as_nanos(),
        ));
    }
    None
}

pub fn opaque(r: &dyn Reflect) -> M {
    crate::universe::opaque_content(r.as_any())
        .unwrap_or_else(|| panic!("unexpected opaque value of type {}", r.type_name()))
}

pub fn vk(k: VariantKind) -> VK {
    match k {
        VariantKind::Struct => VK::Struct,
        VariantKind::Tuple => VK::Tuple,
        VariantKind::Unit => VK::Unit,
    }
}

/// The content of a value, by iterating.
pub fn observe(r: &dyn Reflect) -> M {
    match r.reflect_ref() {
        ReflectRef::Scalar(s) => match via(r) {
            Some(m) => {
                let M::Via(_, shown, _) = &m else { unreachable!() };
                assert_eq!(&scalar(s), shown, "scalar view of {}", r.type_name());
                m
            }
            None => M::S(scalar(s)),
        },
        ReflectRef::Struct(s) => M::Struct(
            s.fields()
                .map(|(n, v)| (n.to_owned(), observe(v)))
                .collect(),
        ),
        ReflectRef::TupleStruct(s) => M::TupleStruct(s.fields().map(observe).collect()),
        ReflectRef::Tuple(s) => M::Tuple(s.fields().map(observe).collect()),
        ReflectRef::Enum(e) => M::Enum(
            e.variant_name().to_owned(),
            vk(e.variant_kind()),
            e.fields()
                .map(|f| match f {
                    VariantField::Struct(n, v) => (Some(n.to_owned()), observe(v)),
                    VariantField::Tuple(v) => (None, observe(v)),
                })
                .collect(),
        ),
        ReflectRef::List(l) => M::List(l.iter().map(observe).collect()),
        ReflectRef::Array(l) => M::Array(l.iter().map(observe).collect()),
        ReflectRef::Map(m) => M::Map(m.iter().map(|(k, v)| (observe(k), observe(v))).collect()),
        ReflectRef::Opaque(o) => opaque(o),
    }
}

/// The content of a value, by name and by index.
pub fn observe_at(r: &dyn Reflect) -> M {
    match r.reflect_ref() {
        ReflectRef::Scalar(_) | ReflectRef::Opaque(_) => observe(r),
        ReflectRef::Struct(s) => M::Struct(
            (0..s.fields_len())
                .map(|i| {
                    (
                        s.name_at(i).unwrap().to_owned(),
                        observe_at(s.field_at(i).unwrap()),
                    )
                })
                .collect(),
        ),
        ReflectRef::TupleStruct(s) => M::TupleStruct(
            (0..s.fields_len())
                .map(|i| observe_at(s.field_at(i).unwrap()))
                .collect(),
        ),
        ReflectRef::Tuple(s) => M::Tuple(
            (0..s.fields_len())
                .map(|i| observe_at(s.field_at(i).unwrap()))
                .collect(),
        ),
        ReflectRef::Enum(e) => M::Enum(
            e.variant_name().to_owned(),
            vk(e.variant_kind()),
            (0..e.fields_len())
                .map(|i| {
                    (
                        e.name_at(i).map(str::to_owned),
                        observe_at(e.field_at(i).unwrap()),
                    )
                })
                .collect(),
        ),
        ReflectRef::List(l) => {
            M::List((0..l.len()).map(|i| observe_at(l.get(i).unwrap())).collect())
        }
        ReflectRef::Array(l) => {
            M::Array((0..l.len()).map(|i| observe_at(l.get(i).unwrap())).collect())
        }
        ReflectRef::Map(m) => M::Map(
            m.iter()
                .map(|(k, _)| (observe_at(k), observe_at(m.get(k).unwrap())))
                .collect(),
        ),
    }
}

/// The content of a value, through mutable access.
pub fn observe_mut(r: &mut dyn Reflect) -> M {
    if let Some(m) = via(r) {
        return m;
    }
    match r.reflect_mut() {
        ReflectMut::Scalar(s) => M::S(scalar_mut(&s)),
        ReflectMut::Opaque(o) => opaque(o),
        ReflectMut::Struct(s) => M::Struct(
            s.fields_mut()
                .map(|(n, v)| (n.to_owned(), observe_mut(v)))
                .collect(),
        ),
        ReflectMut::TupleStruct(s) => M::TupleStruct(s.fields_mut().map(observe_mut).collect()),
        ReflectMut::Tuple(s) => M::Tuple(s.fields_mut().map(observe_mut).collect()),
        ReflectMut::Enum(e) => {
            let name = e.variant_name().to_owned();
            let kind = vk(e.variant_kind());
            M::Enum(
                name,
                kind,
                e.fields_mut()
                    .map(|f| match f {
                        VariantFieldMut::Struct(n, v) => (Some(n.to_owned()), observe_mut(v)),
                        VariantFieldMut::Tuple(v) => (None, observe_mut(v)),
                    })
                    .collect(),
            )
        }
        ReflectMut::List(l) => M::List(l.iter_mut().map(observe_mut).collect()),
        ReflectMut::Array(l) => M::Array(l.iter_mut().map(observe_mut).collect()),
        ReflectMut::Map(m) => M::Map(
            m.iter_mut()
                .map(|(k, v)| (observe(k), observe_mut(v)))
                .collect(),
        ),
    }
}

/// Change the value to different content of the same type, without adding or removing anything.
/// Returns the new content, or `None` when there is nothing to change.
pub fn poke(r: &mut dyn Reflect, m: &M) -> Option<M> {
    match m {
        M::S(s) => {
            let new = s.alt();
            set_scalar(
                r.as_scalar_mut()
                    .unwrap_or_else(|| panic!("no mutable scalar view for {m:?}")),
                &new,
            );
            Some(M::S(new))
        }
        M::Via(v, s, _) => {
            let new = s.alt();
            r.patch(&new.to_value());
            Some(v.from_scalar(&new).unwrap())
        }
        M::Opaque(n) => {
            let new = n ^ 1;
            assert!(crate::universe::set_opaque(r.as_any_mut(), new));
            Some(M::Opaque(new))
        }
        _ => {
            let n = m.children().len();
            for i in (0..n).rev() {
                let child = child_mut(r, i).unwrap_or_else(|| panic!("no child {i} of {m:?}"));
                if let Some(new) = poke(child, m.children()[i]) {
                    let mut out = m.clone();
                    *out.child_mut(i) = new;
                    return Some(out);
                }
            }
            None
        }
    }
}

/// Mutable access to the `i`th child, in the order of `M::children`.
pub fn child_mut(r: &mut dyn Reflect, i: usize) -> Option<&mut dyn Reflect> {
    match r.reflect_mut() {
        ReflectMut::Scalar(_) | ReflectMut::Opaque(_) => None,
        ReflectMut::Struct(s) => s.field_at_mut(i),
        ReflectMut::TupleStruct(s) => s.field_at_mut(i),
        ReflectMut::Tuple(s) => s.field_at_mut(i),
        ReflectMut::Enum(s) => s.field_at_mut(i),
        ReflectMut::List(s) => s.get_mut(i),
        ReflectMut::Array(s) => s.get_mut(i),
        ReflectMut::Map(s) => s.iter_mut().nth(i).map(|(_, v)| v),
    }
}

pub fn child(r: &dyn Reflect, i: usize) -> Option<&dyn Reflect> {
    match r.reflect_ref() {
        ReflectRef::Scalar(_) | ReflectRef::Opaque(_) => None,
        ReflectRef::Struct(s) => s.field_at(i),
        ReflectRef::TupleStruct(s) => s.field_at(i),
        ReflectRef::Tuple(s) => s.field_at(i),
        ReflectRef::Enum(s) => s.field_at(i),
        ReflectRef::List(s) => s.get(i),
        ReflectRef::Array(s) => s.get(i),
        ReflectRef::Map(s) => s.iter().nth(i).map(|(_, v)| v),
    }
}
