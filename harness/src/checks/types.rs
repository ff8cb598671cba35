//! Comparing descriptions of types with the model.

use super::*;
use mirror_mirror::type_info::*;

pub fn scalar_k(s: ScalarType) -> K {
    match s {
        ScalarType::usize => K::Usize,
        ScalarType::u8 => K::U8,
        ScalarType::u16 => K::U16,
        ScalarType::u32 => K::U32,
        ScalarType::u64 => K::U64,
        ScalarType::u128 => K::U128,
        ScalarType::i8 => K::I8,
        ScalarType::i16 => K::I16,
        ScalarType::i32 => K::I32,
        ScalarType::i64 => K::I64,
        ScalarType::i128 => K::I128,
        ScalarType::bool => K::Bool,
        ScalarType::char => K::Char,
        ScalarType::f32 => K::F32,
        ScalarType::f64 => K::F64,
        ScalarType::String => K::Str,
    }
}

pub fn kind(ty: Type<'_>) -> &'static str {
    match ty {
        Type::Struct(_) => "Struct",
        Type::TupleStruct(_) => "TupleStruct",
        Type::Tuple(_) => "Tuple",
        Type::Enum(_) => "Enum",
        Type::List(_) => "List",
        Type::Array(_) => "Array",
        Type::Map(_) => "Map",
        Type::Scalar(_) => "Scalar",
        Type::Opaque(_) => "Opaque",
    }
}

/// Compare a description with what it should say, down to `depth`. `n` counts what was compared.
pub fn cmp_type(n: &mut usize, ty: Type<'_>, t: &T, depth: usize) -> Result<(), String> {
    *n += 1;
    ensure_eq!(kind(ty), t.kind(), "kind of {}", t.type_name());
    ensure_eq!(ty.type_name(), t.type_name(), "type name");
    let views = [
        ("Struct", ty.as_struct().is_some()),
        ("TupleStruct", ty.as_tuple_struct().is_some()),
        ("Tuple", ty.as_tuple().is_some()),
        ("Enum", ty.as_enum().is_some()),
        ("List", ty.as_list().is_some()),
        ("Array", ty.as_array().is_some()),
        ("Map", ty.as_map().is_some()),
        ("Scalar", ty.as_scalar().is_some()),
        ("Opaque", ty.as_opaque().is_some()),
    ];
    for (k, there) in views {
        ensure_eq!(there, k == t.kind(), "{} as {k}", t.type_name());
    }
    if depth == 0 {
        return Ok(());
    }
    match (ty, t) {
        (Type::Struct(s), T::Struct { .. }) => cmp_struct(n, s, t, depth),
        (Type::TupleStruct(s), T::TupleStruct { .. }) => cmp_tuple_struct(n, s, t, depth),
        (Type::Tuple(s), T::Tuple { .. }) => cmp_tuple(n, s, t, depth),
        (Type::Enum(s), T::Enum { .. }) => cmp_enum(n, s, t, depth),
        (Type::List(s), T::List { elem, .. }) => {
            ensure_eq!(s.type_name(), t.type_name(), "type name of the list");
            cmp_type(n, s.element_type(), &elem(), depth - 1)
        }
        (Type::Array(s), T::Array { elem, len, .. }) => {
            ensure_eq!(s.type_name(), t.type_name(), "type name of the array");
            ensure_eq!(s.len(), *len, "length of {}", t.type_name());
            ensure_eq!(s.is_empty(), *len == 0, "is_empty of {}", t.type_name());
            cmp_type(n, s.element_type(), &elem(), depth - 1)
        }
        (Type::Map(s), T::Map { key, value, .. }) => {
            ensure_eq!(s.type_name(), t.type_name(), "type name of the map");
            cmp_type(n, s.key_type(), &key(), depth - 1)?;
            cmp_type(n, s.value_type(), &value(), depth - 1)
        }
        (Type::Scalar(s), T::S(k)) => {
            ensure_eq!(scalar_k(s), *k, "scalar");
            ensure_eq!(s.type_name(), t.type_name(), "type name of the scalar");
            Ok(())
        }
        (Type::Opaque(s), _) => {
            ensure_eq!(s.type_name(), t.type_name(), "type name of the opaque type");
            Ok(())
        }
        _ => unreachable!(),
    }
}

macro_rules! named {
    ($n:expr, $s:expr, $fields:expr, $name:expr, $depth:expr) => {{
        let (s, fields, depth) = ($s, $fields, $depth);
        ensure_eq!(s.fields_len(), fields.len(), "number of fields of {}", $name);
        let listed: Vec<&str> = s.field_types().map(|f| f.name()).collect();
        let expected: Vec<&str> = fields.iter().map(|f| f.name.unwrap()).collect();
        ensure_eq!(listed, expected, "fields of {}", $name);
        for (i, (f, l)) in fields.iter().zip(s.field_types()).enumerate() {
            let name = f.name.unwrap();
            let by_name = s.field_type(name).ok_or(format!("{} has no field {name}", $name))?;
            let at = s.field_type_at(i).ok_or(format!("{} has no field {i}", $name))?;
            ensure_eq!(at.name(), name, "name of field {i} of {}", $name);
            ensure_eq!(by_name.name(), name, "name of field {name} of {}", $name);
            let t = (f.ty)();
            cmp_type($n, l.get_type(), &t, depth - 1).map_err(|e| format!("{name} of {}: {e}", $name))?;
            cmp_type($n, by_name.get_type(), &t, depth.min(2) - 1).map_err(|e| format!("{name} of {}: {e}", $name))?;
            cmp_type($n, at.get_type(), &t, depth.min(2) - 1).map_err(|e| format!("{name} of {}: {e}", $name))?;
        }
        for i in past(fields.len()) {
            ensure!(s.field_type_at(i).is_none(), "{} has field {}", $name, i);
        }
        for name in all_names() {
            if !expected.contains(&name) {
                ensure!(s.field_type(name).is_none(), "{} has field {name:?}", $name);
            }
        }
    }};
}

macro_rules! unnamed {
    ($n:expr, $s:expr, $tys:expr, $name:expr, $depth:expr) => {{
        let (s, tys, depth) = ($s, $tys, $depth);
        ensure_eq!(s.fields_len(), tys.len(), "number of fields of {}", $name);
        ensure_eq!(s.field_types().count(), tys.len(), "fields listed of {}", $name);
        for (i, (t, l)) in tys.iter().zip(s.field_types()).enumerate() {
            let at = s.field_type_at(i).ok_or(format!("{} has no field {i}", $name))?;
            let t = t();
            cmp_type($n, l.get_type(), &t, depth - 1).map_err(|e| format!("{i} of {}: {e}", $name))?;
            cmp_type($n, at.get_type(), &t, depth.min(2) - 1).map_err(|e| format!("{i} of {}: {e}", $name))?;
        }
        for i in past(tys.len()) {
            ensure!(s.field_type_at(i).is_none(), "{} has field {}", $name, i);
        }
    }};
}

pub fn cmp_struct(n: &mut usize, s: StructType<'_>, t: &T, depth: usize) -> Result<(), String> {
    let T::Struct { name, fields, .. } = t else { return Err("not a struct".into()) };
    ensure_eq!(s.type_name(), *name, "type name of the struct");
    named!(n, s, fields, name, depth);
    Ok(())
}

fn ftys(fields: &[FieldT]) -> Vec<Ty> {
    fields.iter().map(|f| f.ty).collect()
}

pub fn cmp_tuple_struct(n: &mut usize, s: TupleStructType<'_>, t: &T, depth: usize) -> Result<(), String> {
    let T::TupleStruct { name, fields, .. } = t else { return Err("not a tuple struct".into()) };
    ensure_eq!(s.type_name(), *name, "type name of the tuple struct");
    unnamed!(n, s, &ftys(fields), name, depth);
    Ok(())
}

pub fn cmp_tuple(n: &mut usize, s: TupleType<'_>, t: &T, depth: usize) -> Result<(), String> {
    let T::Tuple { name, elems } = t else { return Err("not a tuple".into()) };
    ensure_eq!(s.type_name(), *name, "type name of the tuple");
    unnamed!(n, s, elems, name, depth);
    Ok(())
}

pub fn cmp_enum(n: &mut usize, s: EnumType<'_>, t: &T, depth: usize) -> Result<(), String> {
    let T::Enum { name, variants, .. } = t else { return Err("not an enum".into()) };
    ensure_eq!(s.type_name(), *name, "type name of the enum");
    ensure_eq!(s.variants_len(), variants.len(), "number of variants of {name}");
    let listed: Vec<&str> = s.variants().map(|v| v.name()).collect();
    let expected: Vec<&str> = variants.iter().map(|v| v.name).collect();
    ensure_eq!(listed, expected, "variants of {name}");
    for (v, l) in variants.iter().zip(s.variants()) {
        cmp_variant(n, l, v, name, depth).map_err(|e| format!("variant {}: {e}", v.name))?;
        let by_name = s.variant(v.name).ok_or(format!("no variant {}", v.name))?;
        cmp_variant(n, by_name, v, name, depth.min(2)).map_err(|e| format!("variant {}: {e}", v.name))?;
        let back = l.enum_type();
        ensure_eq!(back.type_name(), *name, "enum of variant {}", v.name);
        ensure_eq!(back.variants_len(), variants.len(), "number of variants of the enum of {}", v.name);
    }
    for name in all_names() {
        if !expected.contains(&name) {
            ensure!(s.variant(name).is_none(), "has a variant {name:?}");
        }
    }
    Ok(())
}

pub fn cmp_variant(n: &mut usize, l: Variant<'_>, v: &VariantT, enum_name: &str, depth: usize) -> Result<(), String> {
    *n += 1;
    let kind = match l {
        Variant::Struct(_) => VK::Struct,
        Variant::Tuple(_) => VK::Tuple,
        Variant::Unit(_) => VK::Unit,
    };
    ensure_eq!(kind, v.kind, "kind");
    ensure_eq!(l.name(), v.name, "name");
    ensure_eq!(l.type_name(), enum_name, "type name");
    ensure_eq!(l.fields_len(), v.fields.len(), "number of fields");
    let listed: Vec<Option<&str>> = l.field_types().map(|f| f.name()).collect();
    let expected: Vec<Option<&str>> = v.fields.iter().map(|f| f.name).collect();
    ensure_eq!(listed, expected, "fields");
    if depth == 0 {
        return Ok(());
    }
    for (i, (f, lf)) in v.fields.iter().zip(l.field_types()).enumerate() {
        let t = (f.ty)();
        cmp_type(n, lf.get_type(), &t, depth - 1).map_err(|e| format!("field {i}: {e}"))?;
        let at = l.field_type_at(i).ok_or(format!("no field {i}"))?;
        ensure_eq!(at.name(), f.name, "name of field {i}");
        cmp_type(n, at.get_type(), &t, depth.min(2) - 1).map_err(|e| format!("field {i}: {e}"))?;
        if let Some(name) = f.name {
            let by = l.field_type(name).ok_or(format!("no field {name}"))?;
            cmp_type(n, by.get_type(), &t, depth.min(2) - 1).map_err(|e| format!("field {name}: {e}"))?;
        }
    }
    for i in past(v.fields.len()) {
        ensure!(l.field_type_at(i).is_none(), "has field {}", i);
    }
    for name in all_names() {
        if !expected.contains(&Some(name)) {
            ensure!(l.field_type(name).is_none(), "has field {name:?}");
        }
    }
    match l {
        Variant::Struct(s) => {
            ensure_eq!(s.type_name(), enum_name, "type name");
            ensure_eq!(s.name(), v.name, "name");
            ensure_eq!(s.enum_type().type_name(), enum_name, "enum");
            named!(n, s, &v.fields, v.name, depth);
        }
        Variant::Tuple(s) => {
            ensure_eq!(s.type_name(), enum_name, "type name");
            ensure_eq!(s.name(), v.name, "name");
            ensure_eq!(s.enum_type().type_name(), enum_name, "enum");
            unnamed!(n, s, &ftys(&v.fields), v.name, depth);
        }
        Variant::Unit(s) => {
            ensure_eq!(s.type_name(), enum_name, "type name");
            ensure_eq!(s.name(), v.name, "name");
            ensure_eq!(s.enum_type().type_name(), enum_name, "enum");
        }
    }
    Ok(())
}

/// A part of a description.
#[derive(Clone, Copy)]
pub enum Node<'a> {
    Type(Type<'a>),
    Variant(Variant<'a>),
    Named(NamedField<'a>),
    Unnamed(UnnamedField<'a>),
}

/// What it describes.
#[derive(Clone)]
pub enum TNode {
    T(T),
    Variant(T, VariantT),
    Field(FieldT),
}

/// Every part of a description, down to `depth`.
pub fn each_node<'a>(
    ty: Type<'a>,
    t: &T,
    depth: usize,
    f: &mut dyn FnMut(Node<'a>, TNode) -> Result<(), String>,
) -> Result<(), String> {
    f(Node::Type(ty), TNode::T(t.clone()))?;
    if depth == 0 {
        return Ok(());
    }
    let plain = |ty: Ty| FieldT { name: None, ty, with: None, meta: vec![], docs: vec![] };
    match (ty, t) {
        (Type::Struct(s), T::Struct { fields, .. }) => {
            for (l, m) in s.field_types().zip(fields) {
                f(Node::Named(l), TNode::Field(m.clone()))?;
                each_node(l.get_type(), &(m.ty)(), depth - 1, f)?;
            }
        }
        (Type::TupleStruct(s), T::TupleStruct { fields, .. }) => {
            for (l, m) in s.field_types().zip(fields) {
                f(Node::Unnamed(l), TNode::Field(m.clone()))?;
                each_node(l.get_type(), &(m.ty)(), depth - 1, f)?;
            }
        }
        (Type::Tuple(s), T::Tuple { elems, .. }) => {
            for (l, m) in s.field_types().zip(elems) {
                f(Node::Unnamed(l), TNode::Field(plain(*m)))?;
                each_node(l.get_type(), &m(), depth - 1, f)?;
            }
        }
        (Type::Enum(s), T::Enum { variants, .. }) => {
            for (l, m) in s.variants().zip(variants) {
                f(Node::Variant(l), TNode::Variant(t.clone(), m.clone()))?;
                for (lf, mf) in l.field_types().zip(&m.fields) {
                    match lf {
                        VariantField::Named(lf) => f(Node::Named(lf), TNode::Field(mf.clone()))?,
                        VariantField::Unnamed(lf) => f(Node::Unnamed(lf), TNode::Field(mf.clone()))?,
                    }
                    each_node(lf.get_type(), &(mf.ty)(), depth - 1, f)?;
                }
            }
        }
        (Type::List(s), T::List { elem, .. }) => each_node(s.element_type(), &elem(), depth - 1, f)?,
        (Type::Array(s), T::Array { elem, .. }) => each_node(s.element_type(), &elem(), depth - 1, f)?,
        (Type::Map(s), T::Map { key, value, .. }) => {
            each_node(s.key_type(), &key(), depth - 1, f)?;
            each_node(s.value_type(), &value(), depth - 1, f)?;
        }
        (Type::Scalar(_), T::S(_)) => {}
        (Type::Opaque(_), T::Via(_) | T::Opaque { .. } | T::Dyn(_)) => {}
        _ => return Err(format!("description of {} has the wrong kind", t.type_name())),
    }
    Ok(())
}

/// The description of a part as a type descriptor of its own.
pub fn own_descriptor(ty: Type<'_>) -> std::borrow::Cow<'static, TypeDescriptor> {
    ty.into_type_descriptor()
}
