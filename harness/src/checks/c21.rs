use super::types::*;
use super::*;
use mirror_mirror::key_path::{GetTypePath, Key, KeyPath};
use mirror_mirror::type_info::*;

pub const CHECK: Check = Check {
    id: "C21",
    run,
    bounds: "every type of the universe and every part of it down to depth 4 (thorough 7), among them types with meta data and docs on every single item, on all items but one and on all items (type, fields, variants, fields of variants, skipped ones too); every key used anywhere and some that aren't, through every view of an item",
    extra: None,
};

type Meta = [(&'static str, fn() -> Value)];

const KEYS: &[&str] = &[
    "i", "s", "v", "neg", "b", "e", "st", "", "I", "unit", "n", "docs", "skip", "i2", "meta", "ktype", "ka", "kh", "kb",
    "kA", "kH", "kB", "kbx", "kby", "kC", "kc0", "kc1", "a",
];

/// One view of an item.
fn item<'a, G: GetMeta<'a> + Copy>(g: G, what: &str, meta: &Meta, docs: &[&str], n: &mut u64) -> Result<(), String> {
    ensure_eq!(g.docs(), docs, "docs of {what}");
    for key in KEYS.iter().copied().chain(meta.iter().map(|m| m.0)) {
        let expected = meta.iter().find(|m| m.0 == key).map(|m| m.1());
        *n += 1;
        match (g.meta(key), &expected) {
            (None, None) => {}
            (Some(got), Some(e)) => {
                same(&observe(got), &e.m(), &format!("{key} of {what}"))?;
            }
            (got, e) => return Err(format!("{key} of {what}: got {got:?}, expected {e:?}")),
        }
        macro_rules! typed {
            ($($t:ty),*) => {
                $(
                    let got = g.get_meta::<$t>(key).map(|v| v.m());
                    match expected.as_ref().map(|e| conv(&<$t>::t(), &e.m())) {
                        Some(R::Unspec) => {}
                        Some(R::Yes(m)) => ensure_eq!(got, Some(m), "{key} of {what} as {}", stringify!($t)),
                        _ => ensure_eq!(got, None, "{key} of {what} as {}", stringify!($t)),
                    }
                )*
            };
        }
        typed!(i32, String, Vec<u8>, i64, bool, Units, S1m0, Value, u8);
    }
    Ok(())
}

fn of_type(t: &T) -> (Vec<(&'static str, fn() -> Value)>, Vec<&'static str>) {
    match t {
        T::Struct { meta, docs, .. } | T::TupleStruct { meta, docs, .. } | T::Enum { meta, docs, .. } => {
            (meta.clone(), docs.clone())
        }
        T::Opaque { meta, .. } => (meta.clone(), vec![]),
        _ => (vec![], vec![]),
    }
}

fn variant(v: Variant<'_>, m: &VariantT, n: &mut u64) -> Result<(), String> {
    item(v, "variant", &m.meta, &m.docs, n)?;
    match v {
        Variant::Struct(v) => item(v, "struct variant", &m.meta, &m.docs, n),
        Variant::Tuple(v) => item(v, "tuple variant", &m.meta, &m.docs, n),
        Variant::Unit(v) => item(v, "unit variant", &m.meta, &m.docs, n),
    }
}

/// The meta data and docs everywhere in a descriptor. Returns the number of parts.
pub fn everywhere(d: &TypeDescriptor, t: &T, depth: usize, n: &mut u64) -> Result<u64, String> {
    let (meta, docs) = of_type(t);
    item(d, "descriptor", &meta, &docs, n)?;
    let mut seen = 0u64;
    each_node(d.get_type(), t, depth, &mut |node, tnode| {
        seen += 1;
        match (node, tnode) {
            (Node::Type(ty), TNode::T(t)) => {
                let (meta, docs) = of_type(&t);
                item(ty, "type", &meta, &docs, n)?;
                match ty {
                    Type::Struct(v) => item(v, "struct", &meta, &docs, n)?,
                    Type::TupleStruct(v) => item(v, "tuple struct", &meta, &docs, n)?,
                    Type::Enum(v) => item(v, "enum", &meta, &docs, n)?,
                    Type::Opaque(v) => item(v, "opaque", &meta, &docs, n)?,
                    _ => {}
                }
                let at = ty.type_at(&KeyPath::default()).ok_or("nothing at the empty path")?;
                item(at, "type at the empty path", &meta, &docs, n)?;
                let own = ty.into_type_descriptor();
                item(&*own, "own descriptor", &meta, &docs, n)?;
                // one step by path
                match (ty, &t) {
                    (Type::Struct(_), T::Struct { fields, .. }) => {
                        for f in fields {
                            let at = ty
                                .type_at(&KeyPath::from(Key::named_field(f.name.unwrap())))
                                .ok_or("no field by path")?;
                            let (meta, docs) = of_type(&(f.ty)());
                            item(at, "type of a field by path", &meta, &docs, n)?;
                        }
                    }
                    (Type::TupleStruct(_), T::TupleStruct { fields, .. }) => {
                        for (i, f) in fields.iter().enumerate() {
                            let at = ty
                                .type_at(&KeyPath::from(Key::numbered_field(i)))
                                .ok_or("no field by path")?;
                            let (meta, docs) = of_type(&(f.ty)());
                            item(at, "type of a field by path", &meta, &docs, n)?;
                        }
                    }
                    (Type::Enum(e), T::Enum { variants, .. }) => {
                        for v in variants {
                            let at = ty
                                .type_at(&KeyPath::from(Key::variant(v.name)))
                                .ok_or("no variant by path")?;
                            item(at, "variant by path", &v.meta, &v.docs, n)?;
                            let by_name = e.variant(v.name).ok_or("no variant by name")?;
                            variant(by_name, v, n)?;
                            // the fields of variants, by name and position
                            for (i, f) in v.fields.iter().enumerate() {
                                let l = by_name.field_type_at(i).ok_or("no field by index")?;
                                item(l, "field of a variant by index", &f.meta, &f.docs, n)?;
                                if let Some(name) = f.name {
                                    let l = by_name.field_type(name).ok_or("no field by name")?;
                                    item(l, "field of a variant by name", &f.meta, &f.docs, n)?;
                                }
                            }
                        }
                    }
                    _ => {}
                }
                // fields by name and position
                match (ty, &t) {
                    (Type::Struct(s), T::Struct { fields, .. }) => {
                        for (i, f) in fields.iter().enumerate() {
                            let l = s.field_type(f.name.unwrap()).ok_or("no field by name")?;
                            item(l, "field by name", &f.meta, &f.docs, n)?;
                            let l = s.field_type_at(i).ok_or("no field by index")?;
                            item(l, "field by index", &f.meta, &f.docs, n)?;
                        }
                    }
                    (Type::TupleStruct(s), T::TupleStruct { fields, .. }) => {
                        for (i, f) in fields.iter().enumerate() {
                            let l = s.field_type_at(i).ok_or("no field by index")?;
                            item(l, "field by index", &f.meta, &f.docs, n)?;
                        }
                    }
                    _ => {}
                }
                Ok(())
            }
            (Node::Variant(v), TNode::Variant(_, m)) => variant(v, &m, n),
            (Node::Named(f), TNode::Field(m)) => item(f, "field", &m.meta, &m.docs, n),
            (Node::Unnamed(f), TNode::Field(m)) => item(f, "field", &m.meta, &m.docs, n),
            _ => Err("parts of the type do not match".into()),
        }
    })?;
    Ok(seen)
}

fn run(ctx: &mut Ctx) {
    let depth = ctx.pick(4, 7);
    for ty in universe() {
        ctx.unit(ty.name, |ctx| {
            ctx.case(
                || "meta data and docs of all parts".into(),
                |st| {
                    let d = (ty.desc)();
                    let t = (ty.t)();
                    let mut n = 0;
                    let seen = everywhere(&d, &t, depth, &mut n)?;
                    for i in 0..seen {
                        st.state(&(ty.name, i));
                    }
                    st.tr(n as usize as _);
                    Ok(())
                },
            );
        });
    }
}
