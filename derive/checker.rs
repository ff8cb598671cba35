//! Compares what a derived type does with what was written.

use mirror_mirror::enum_::{EnumValue, VariantKind};
use mirror_mirror::struct_::StructValue;
use mirror_mirror::tuple_struct::TupleStructValue;
use mirror_mirror::type_info::{GetMeta, Type, Variant};
use mirror_mirror::{reflect_eq, DescribeType, FromReflect, Reflect, ReflectRef, TypeDescriptor, Value};
use std::any::Any;
use std::borrow::Cow;

/// Can't be reflected.
#[derive(Default, Clone, Debug, PartialEq)]
pub struct NotReflect(pub u32);

/// A custom reader.
pub fn reader(v: &dyn Reflect) -> Option<u8> {
    u8::from_reflect(v).map(|n| n ^ 0x55)
}

#[derive(Reflect, Clone, Debug, PartialEq, Default)]
pub struct Inner {
    pub a: u8,
    pub b: Option<String>,
}

pub struct Fld {
    pub name: Option<&'static str>,
    pub ty: &'static str,
    pub val: Value,
    pub other: Value,
    pub with: bool,
    pub meta: Vec<(&'static str, Value)>,
    pub docs: Vec<&'static str>,
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Kind {
    Named,
    Unnamed,
    Unit,
}

pub struct Var {
    pub name: &'static str,
    pub kind: Kind,
    pub fields: Vec<Fld>,
    pub meta: Vec<(&'static str, Value)>,
    pub docs: Vec<&'static str>,
    pub make: fn() -> Box<dyn Reflect>,
    /// the same, converted
    pub into: fn() -> Value,
    /// what's in the skipped fields of that
    pub skips: Vec<u32>,
}

pub struct Spec {
    pub is_enum: bool,
    pub meta: Vec<(&'static str, Value)>,
    pub docs: Vec<&'static str>,
    /// one for a struct; not the skipped ones
    pub vars: Vec<Var>,
    pub no_clone: bool,
    /// with a manual implementation of `FromReflect` that gives the first of `vars`, or without one
    pub from: How,
}

#[derive(Clone, Copy, PartialEq)]
pub enum How {
    Derived,
    Manual,
    None,
}

pub struct Ops {
    pub name: &'static str,
    pub desc: fn() -> Cow<'static, TypeDescriptor>,
    pub skips: fn(&dyn Any) -> Vec<u32>,
    pub from: Option<fn(&dyn Reflect) -> Option<Box<dyn Reflect>>>,
    pub debug: Option<fn(&dyn Any, bool) -> String>,
}

pub fn desc<T: DescribeType>() -> Cow<'static, TypeDescriptor> {
    <T as DescribeType>::type_descriptor()
}

pub fn from<T: FromReflect>(x: &dyn Reflect) -> Option<Box<dyn Reflect>> {
    T::from_reflect(x).map(|x| Box::new(x) as Box<dyn Reflect>)
}

pub fn debug<T: std::fmt::Debug + 'static>(x: &dyn Any, alternate: bool) -> String {
    let x = x.downcast_ref::<T>().unwrap();
    if alternate {
        format!("{x:#?}")
    } else {
        format!("{x:?}")
    }
}

type R = Result<(), String>;

macro_rules! same {
    ($a:expr, $b:expr, $($arg:tt)*) => {{
        match (&$a, &$b) {
            (a, b) => {
                if a != b {
                    return Err(format!("{}: {a:?}, not {b:?}", format!($($arg)*)));
                }
            }
        }
    }};
}

fn meta<'a>(what: &str, x: impl GetMeta<'a> + Copy, meta: &[(&str, Value)], docs: &[&str]) -> R {
    same!(x.docs(), docs, "docs of {what}");
    for (k, v) in meta {
        same!(x.meta(k).map(|v| v.to_value()).as_ref(), Some(v), "meta {k} of {what}");
    }
    same!(x.meta("unknown").is_none(), true, "unknown meta of {what} is none");
    Ok(())
}

fn described(spec: &Spec, ops: &Ops) -> R {
    let d = (ops.desc)();
    let t = d.get_type();
    same!(t.type_name(), ops.name, "type name");
    meta("the type", t, &spec.meta, &spec.docs)?;
    let named = |what: &str, got: Vec<mirror_mirror::type_info::NamedField<'_>>, v: &Var| -> R {
        let names: Vec<_> = got.iter().map(|f| f.name().to_owned()).collect();
        let want: Vec<_> = v.fields.iter().map(|f| f.name.unwrap().to_owned()).collect();
        same!(names, want, "fields of {what}");
        for (g, f) in got.iter().zip(&v.fields) {
            same!(g.get_type().type_name(), f.ty, "type of {} of {what}", f.name.unwrap());
            meta(&format!("{} of {what}", f.name.unwrap()), *g, &f.meta, &f.docs)?;
        }
        Ok(())
    };
    let unnamed = |what: &str, got: Vec<mirror_mirror::type_info::UnnamedField<'_>>, v: &Var| -> R {
        same!(got.len(), v.fields.len(), "number of fields of {what}");
        for (i, (g, f)) in got.iter().zip(&v.fields).enumerate() {
            same!(g.get_type().type_name(), f.ty, "type of field {i} of {what}");
            meta(&format!("field {i} of {what}"), *g, &f.meta, &f.docs)?;
        }
        Ok(())
    };
    match t {
        Type::Struct(s) if !spec.is_enum && spec.vars[0].kind != Kind::Unnamed => {
            same!(s.fields_len(), spec.vars[0].fields.len(), "number of fields");
            named("the struct", s.field_types().collect(), &spec.vars[0])
        }
        Type::TupleStruct(s) if !spec.is_enum && spec.vars[0].kind == Kind::Unnamed => {
            same!(s.fields_len(), spec.vars[0].fields.len(), "number of fields");
            unnamed("the tuple struct", s.field_types().collect(), &spec.vars[0])
        }
        Type::Enum(e) if spec.is_enum => {
            let names: Vec<_> = e.variants().map(|v| v.name().to_owned()).collect();
            let want: Vec<_> = spec.vars.iter().map(|v| v.name.to_owned()).collect();
            same!(names, want, "variants");
            for (g, v) in e.variants().zip(&spec.vars) {
                meta(v.name, g, &v.meta, &v.docs)?;
                match (g, v.kind) {
                    (Variant::Struct(g), Kind::Named) => named(v.name, g.field_types().collect(), v)?,
                    (Variant::Tuple(g), Kind::Unnamed) => unnamed(v.name, g.field_types().collect(), v)?,
                    (Variant::Unit(_), Kind::Unit) => {}
                    _ => return Err(format!("kind of variant {}", v.name)),
                }
            }
            Ok(())
        }
        _ => Err("kind of the type".into()),
    }
}

fn fields(x: &dyn Reflect) -> Result<(Option<String>, Vec<(Option<String>, Value)>), String> {
    Ok(match x.reflect_ref() {
        ReflectRef::Struct(s) => {
            let out: Vec<_> = s.fields().map(|(n, f)| (Some(n.to_owned()), f.to_value())).collect();
            same!(s.fields_len(), out.len(), "number of fields");
            for (i, (n, f)) in out.iter().enumerate() {
                same!(s.field(n.as_ref().unwrap()).map(|f| f.to_value()).as_ref(), Some(f), "field {n:?}");
                same!(s.field_at(i).map(|f| f.to_value()).as_ref(), Some(f), "field {i}");
                same!(s.name_at(i), n.as_deref(), "name of field {i}");
            }
            (None, out)
        }
        ReflectRef::TupleStruct(s) => {
            let out: Vec<_> = s.fields().map(|f| (None, f.to_value())).collect();
            same!(s.fields_len(), out.len(), "number of fields");
            for (i, (_, f)) in out.iter().enumerate() {
                same!(s.field_at(i).map(|f| f.to_value()).as_ref(), Some(f), "field {i}");
            }
            (None, out)
        }
        ReflectRef::Enum(e) => {
            let mut out = vec![];
            for f in e.fields() {
                out.push(match f {
                    mirror_mirror::enum_::VariantField::Struct(n, f) => (Some(n.to_owned()), f.to_value()),
                    mirror_mirror::enum_::VariantField::Tuple(f) => (None, f.to_value()),
                });
            }
            same!(e.fields_len(), out.len(), "number of fields");
            for (i, (n, f)) in out.iter().enumerate() {
                same!(e.field_at(i).map(|f| f.to_value()).as_ref(), Some(f), "field {i}");
                if let Some(n) = n {
                    same!(e.field(n).map(|f| f.to_value()).as_ref(), Some(f), "field {n}");
                }
            }
            (Some(format!("{} {:?}", e.variant_name(), e.variant_kind())), out)
        }
        _ => return Err("kind of the value".into()),
    })
}

fn expected(spec: &Spec, v: &Var, val: impl Fn(&Fld) -> Value) -> (Option<String>, Vec<(Option<String>, Value)>) {
    let kind = match v.kind {
        Kind::Named => VariantKind::Struct,
        Kind::Unnamed => VariantKind::Tuple,
        Kind::Unit => VariantKind::Unit,
    };
    let fields = v.fields.iter().map(|f| (f.name.map(str::to_owned), val(f))).collect();
    (spec.is_enum.then(|| format!("{} {kind:?}", v.name)), fields)
}

fn value(spec: &Spec, v: &Var, val: impl Fn(&Fld) -> Value) -> Value {
    match (spec.is_enum, v.kind) {
        (false, Kind::Unnamed) => v.fields.iter().fold(TupleStructValue::new(), |s, f| s.with_field(val(f))).to_value(),
        (false, _) => v.fields.iter().fold(StructValue::new(), |s, f| s.with_field(f.name.unwrap(), val(f))).to_value(),
        (true, Kind::Unnamed) => v.fields.iter().fold(EnumValue::new_tuple_variant(v.name), |s, f| s.with_tuple_field(val(f))).finish().to_value(),
        (true, Kind::Named) => v.fields.iter().fold(EnumValue::new_struct_variant(v.name), |s, f| s.with_struct_field(f.name.unwrap(), val(f))).finish().to_value(),
        (true, Kind::Unit) => EnumValue::new_unit_variant(v.name).to_value(),
    }
}

fn read(f: &Fld) -> Value {
    match f.val {
        Value::u8(n) if f.with => Value::u8(n ^ 0x55),
        _ => f.val.clone(),
    }
}

/// Whether a type is as specified. Adds to the number of things compared.
pub fn check(spec: &Spec, ops: &Ops, n: &mut u64) -> R {
    described(spec, ops)?;
    *n += 1;
    for v in &spec.vars {
        let x = (v.make)();
        let skips = (ops.skips)(x.as_any());
        let none = vec![0; v.skips.len()];
        same!(skips, v.skips, "skipped fields to start with");
        same!(x.type_name(), ops.name, "type name of the value");
        same!(fields(&*x)?, expected(spec, v, |f| f.val.clone()), "value");
        let val = value(spec, v, |f| f.val.clone());
        same!(x.to_value(), val, "to_value");
        same!((v.into)(), val, "conversion to a value");
        // (an array isn't equal to a list)
        if !v.fields.iter().any(|f| f.ty.starts_with('[')) {
            same!(reflect_eq(&*x, &val), Some(true), "equality with the value");
        }
        // copies
        let c = x.clone_reflect();
        if spec.no_clone && spec.from == How::Derived {
            same!(fields(&*c)?, expected(spec, v, read), "clone");
            same!((ops.skips)(c.as_any()), none, "skipped fields of the clone");
        } else if !spec.no_clone {
            same!(fields(&*c)?, expected(spec, v, |f| f.val.clone()), "clone");
            same!((ops.skips)(c.as_any()), v.skips, "skipped fields of the clone");
        }
        // text
        match ops.debug {
            Some(d) => {
                for a in [false, true] {
                    let got = if a { format!("{:#?}", &*x) } else { format!("{:?}", &*x) };
                    same!(got, d(x.as_any(), a), "debug");
                }
            }
            None => {
                let text = format!("{:?}", &*x);
                for f in &v.fields {
                    if let Some(n) = f.name {
                        same!(text.contains(n), true, "{n} is shown in {text}");
                    }
                }
            }
        }
        // reading
        if let Some(from) = ops.from {
            for (what, src) in [("itself", &*x), ("its value", &val)] {
                let got = from(src).ok_or_else(|| format!("can't be read from {what}"))?;
                if spec.from == How::Manual {
                    let v = &spec.vars[0];
                    same!(fields(&*got)?, expected(spec, v, |f| f.val.clone()), "read with a custom implementation");
                    same!((ops.skips)(got.as_any()), v.skips, "skipped fields read with a custom implementation");
                } else {
                    same!(fields(&*got)?, expected(spec, v, read), "read from {what}");
                    same!((ops.skips)(got.as_any()), none, "skipped fields of what's read from {what}");
                }
            }
            if spec.from == How::Derived {
                let got = from(&value(spec, v, |f| f.other.clone()));
                same!(got.is_some(), true, "can be read from other values");
                same!(from(&Value::u8(1)).is_none(), true, "can't be read from a number");
            }
        }
        // patching
        let mut p = (v.make)();
        p.patch(&Value::u8(1));
        same!(fields(&*p)?, expected(spec, v, |f| f.val.clone()), "after a patch with a number");
        p.patch(&value(spec, v, |f| f.other.clone()));
        if !spec.is_enum {
            same!(fields(&*p)?, expected(spec, v, |f| f.other.clone()), "patched");
            same!((ops.skips)(p.as_any()), v.skips, "skipped fields when patched");
        } else if spec.from == How::Derived && !v.fields.iter().any(|f| f.with) {
            // (it may be replaced as a whole)
            same!(fields(&*p)?, expected(spec, v, |f| f.other.clone()), "patched");
        }
        // through the fields
        let mut p = (v.make)();
        for i in 0..v.fields.len() {
            let f = match p.reflect_mut() {
                mirror_mirror::ReflectMut::Struct(s) => s.field_at_mut(i),
                mirror_mirror::ReflectMut::TupleStruct(s) => s.field_at_mut(i),
                mirror_mirror::ReflectMut::Enum(s) => s.field_at_mut(i),
                _ => None,
            };
            f.ok_or_else(|| format!("no mutable field {i}"))?.patch(&v.fields[i].other);
            *n += 1;
        }
        same!(fields(&*p)?, expected(spec, v, |f| f.other.clone()), "when each field is patched");
        *n += 12;
    }
    Ok(())
}

pub fn main(all: Vec<(&'static str, fn() -> (Spec, Ops))>) {
    let (mut types, mut values, mut n, mut failed) = (0, 0, 0, 0);
    std::panic::set_hook(Box::new(|_| {}));
    for (name, make) in all {
        types += 1;
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
            let (spec, ops) = make();
            values += spec.vars.len();
            check(&spec, &ops, &mut n)
        }));
        let r = r.unwrap_or_else(|e| {
            let e = e.downcast_ref::<String>().cloned().or(e.downcast_ref::<&str>().map(|s| s.to_string()));
            Err(format!("panic: {e:?}"))
        });
        if let Err(e) = r {
            println!("FAIL {name}: {e}");
            failed += 1;
        }
    }
    println!("{{\"types\": {types}, \"values\": {values}, \"comparisons\": {n}, \"failed\": {failed}}}");
}
