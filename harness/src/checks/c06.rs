use super::c05::alphabet;
use super::types::*;
use super::*;
use mirror_mirror::key_path::{GetPath, GetTypePath, Key, KeyPath, NamedOrNumbered};
use mirror_mirror::type_info::*;

pub const CHECK: Check = Check {
    id: "C06",
    run,
    bounds: "every type of the universe: all paths of up to 3 (thorough 4) valid keys of an alphabet and every invalid key after each; every valid path of up to 6 (100) values, and of long (33 and 257 parts) and deep (33 levels) ones; all ways of splitting a path in two",
    extra: None,
};

/// Where a path through a type leads.
#[derive(Clone)]
enum At {
    T(T),
    V(T, VariantT),
}

/// `Err` when it's not specified.
fn step(at: &At, key: &Key) -> Result<Option<At>, ()> {
    let field = |f: &[FieldT], n: &str| f.iter().find(|f| f.name == Some(n)).map(|f| At::T((f.ty)()));
    Ok(match (key, at) {
        (Key::Field(NamedOrNumbered::Named(n)), At::T(T::Struct { fields, .. })) => field(fields, n),
        (Key::Field(NamedOrNumbered::Named(n)), At::V(_, v)) if v.kind == VK::Struct => field(&v.fields, n),
        (Key::Field(NamedOrNumbered::Numbered(i)), At::T(T::TupleStruct { fields, .. })) => {
            fields.get(*i).map(|f| At::T((f.ty)()))
        }
        (Key::Field(NamedOrNumbered::Numbered(i)), At::T(T::Tuple { elems, .. })) => {
            elems.get(*i).map(|f| At::T(f()))
        }
        (Key::Field(NamedOrNumbered::Numbered(i)), At::V(_, v)) if v.kind == VK::Tuple => {
            v.fields.get(*i).map(|f| At::T((f.ty)()))
        }
        (Key::Get(v), At::T(T::Map { key, value, .. })) => match conv(&key(), &v.m()) {
            R::Yes(_) => Some(At::T(value())),
            _ => return Err(()),
        },
        (Key::Get(v), At::T(T::List { elem, .. })) => match v.m() {
            M::S(s) => s.index().map(|_| At::T(elem())),
            _ => None,
        },
        (Key::Get(v), At::T(T::Array { elem, len, .. })) => match v.m() {
            M::S(s) => match s.index() {
                Some(i) if i >= *len => return Err(()),
                Some(_) => Some(At::T(elem())),
                None => None,
            },
            _ => None,
        },
        (Key::Variant(n), At::T(t @ T::Enum { variants, .. })) => {
            variants.iter().find(|v| v.name == n).map(|v| At::V(t.clone(), v.clone()))
        }
        (Key::Variant(n), At::V(_, v)) => (v.name == n).then(|| at.clone()),
        _ => None,
    })
}

fn cmp(n: &mut usize, got: TypeAtPath<'_>, at: &At) -> Result<(), String> {
    let (kind, name) = match at {
        At::T(t) => (t.kind(), t.type_name()),
        At::V(t, _) => ("Variant", t.type_name()),
    };
    let got_kind = match got {
        TypeAtPath::Struct(_) => "Struct",
        TypeAtPath::TupleStruct(_) => "TupleStruct",
        TypeAtPath::Tuple(_) => "Tuple",
        TypeAtPath::Enum(_) => "Enum",
        TypeAtPath::Variant(_) => "Variant",
        TypeAtPath::List(_) => "List",
        TypeAtPath::Array(_) => "Array",
        TypeAtPath::Map(_) => "Map",
        TypeAtPath::Scalar(_) => "Scalar",
        TypeAtPath::Opaque(_) => "Opaque",
    };
    ensure_eq!(got_kind, kind, "kind");
    ensure_eq!(got.type_name(), name, "type name");
    let views = [
        ("Struct", got.as_struct().is_some()),
        ("TupleStruct", got.as_tuple_struct().is_some()),
        ("Tuple", got.as_tuple().is_some()),
        ("Enum", got.as_enum().is_some()),
        ("Variant", got.as_variant().is_some()),
        ("List", got.as_list().is_some()),
        ("Array", got.as_array().is_some()),
        ("Map", got.as_map().is_some()),
        ("Scalar", got.as_scalar().is_some()),
        ("Opaque", got.as_opaque().is_some()),
    ];
    for (k, there) in views {
        ensure_eq!(there, k == kind, "view as {k}");
    }
    *n += 1;
    match (got, at) {
        (TypeAtPath::Variant(v), At::V(t, vt)) => cmp_variant(n, v, vt, t.type_name(), 2),
        (TypeAtPath::Struct(s), At::T(t)) => cmp_type(n, Type::Struct(s), t, 2),
        (TypeAtPath::TupleStruct(s), At::T(t)) => cmp_type(n, Type::TupleStruct(s), t, 2),
        (TypeAtPath::Tuple(s), At::T(t)) => cmp_type(n, Type::Tuple(s), t, 2),
        (TypeAtPath::Enum(s), At::T(t)) => cmp_type(n, Type::Enum(s), t, 2),
        (TypeAtPath::List(s), At::T(t)) => cmp_type(n, Type::List(s), t, 2),
        (TypeAtPath::Array(s), At::T(t)) => cmp_type(n, Type::Array(s), t, 2),
        (TypeAtPath::Map(s), At::T(t)) => cmp_type(n, Type::Map(s), t, 2),
        (TypeAtPath::Scalar(s), At::T(t)) => cmp_type(n, Type::Scalar(s), t, 2),
        (TypeAtPath::Opaque(s), At::T(t)) => cmp_type(n, Type::Opaque(s), t, 2),
        _ => unreachable!(),
    }
}

fn keys(path: &[Key]) -> KeyPath {
    path.iter().cloned().collect()
}

/// Follow a path through a type by all ways there are.
fn follow<'a>(d: &'a TypeDescriptor, path: &[Key]) -> Result<Option<TypeAtPath<'a>>, String> {
    let kp = keys(path);
    let got = d.type_at(&kp);
    let ty = d.get_type();
    ensure_eq!(ty.type_at(&kp), got, "path through the type and through the descriptor");
    let inner = match ty {
        Type::Struct(t) => t.type_at(&kp),
        Type::TupleStruct(t) => t.type_at(&kp),
        Type::Tuple(t) => t.type_at(&kp),
        Type::Enum(t) => t.type_at(&kp),
        Type::List(t) => t.type_at(&kp),
        Type::Map(t) => t.type_at(&kp),
        Type::Scalar(t) => t.type_at(&kp),
        Type::Array(_) | Type::Opaque(_) => got,
    };
    ensure_eq!(inner, got, "path through the kind of type and through the descriptor");
    for i in 0..=path.len() {
        let two = d.type_at(&keys(&path[..i])).and_then(|t| t.type_at(&keys(&path[i..])));
        ensure_eq!(two, got, "path followed in two steps, split at {i}");
    }
    Ok(got)
}

fn check(st: &mut Stats, d: &TypeDescriptor, path: &[Key], expected: Option<&At>) -> Result<(), String> {
    let got = follow(d, path)?;
    st.tr(path.len() + 4);
    match (got, expected) {
        (None, None) => Ok(()),
        (Some(got), Some(at)) => {
            let mut n = 0;
            cmp(&mut n, got, at)?;
            st.tr(n);
            st.state(&format!("{}{}", d.type_name(), keys(path)));
            Ok(())
        }
        (Some(got), None) => Err(format!("leads to {}, expected nothing", got.type_name())),
        (None, Some(at)) => Err(format!(
            "leads nowhere, expected {}",
            match at {
                At::T(t) | At::V(t, _) => t.type_name(),
            }
        )),
    }
}

/// Valid keys and others.
fn type_alphabet(at: &At) -> Vec<Key> {
    let m = match at {
        At::T(T::Struct { fields, .. }) => M::Struct(
            fields.iter().map(|f| (f.name.unwrap().to_owned(), M::Tuple(vec![]))).collect(),
        ),
        At::T(T::TupleStruct { fields, .. }) => M::TupleStruct(vec![M::Tuple(vec![]); fields.len()]),
        At::T(T::Tuple { elems, .. }) => M::Tuple(vec![M::Tuple(vec![]); elems.len()]),
        At::T(T::List { .. }) => M::List(vec![M::Tuple(vec![])]),
        At::T(T::Array { len, .. }) => M::Array(vec![M::Tuple(vec![]); *len]),
        At::T(T::Map { .. }) => M::Map(vec![]),
        At::V(_, v) => M::Enum(
            v.name.to_owned(),
            v.kind,
            v.fields.iter().map(|f| (f.name.map(str::to_owned), M::Tuple(vec![]))).collect(),
        ),
        At::T(_) => M::S(S::U8(0)),
    };
    let mut out = vec![];
    if let At::T(T::Enum { variants, skipped, .. }) = at {
        out.extend(variants.iter().map(|v| Key::variant(v.name)));
        out.extend(skipped.iter().map(|v| Key::variant(*v)));
        // fields of variants are not fields of the enum
        for v in variants {
            for (i, f) in v.fields.iter().enumerate() {
                out.push(match f.name {
                    Some(n) => Key::named_field(n),
                    None => Key::numbered_field(i),
                });
            }
        }
    }
    out.extend(alphabet(&m));
    let mut seen: Vec<Key> = vec![];
    out.retain(|k| {
        let new = !seen.contains(k);
        if new {
            seen.push(k.clone());
        }
        new
    });
    out
}

fn explore(ctx: &mut Ctx, d: &TypeDescriptor, at: &At, path: &mut Vec<Key>, depth: usize) {
    let mut gets = 0;
    for k in type_alphabet(at) {
        let Ok(next) = step(at, &k) else { continue };
        path.push(k.clone());
        ctx.case(|| format!("at {}", keys(path)), |st| check(st, d, path, next.as_ref()));
        if let Some(next) = &next {
            let again = matches!(&k, Key::Get(_)) && gets > 1;
            if matches!(&k, Key::Get(_)) {
                gets += 1;
            }
            if depth > 1 && !again {
                explore(ctx, d, next, path, depth - 1);
            }
        } else {
            path.push(Key::named_field("a"));
            ctx.case(|| format!("at {}", keys(path)), |st| check(st, d, path, None));
            path.pop();
        }
        path.pop();
    }
}

/// All valid paths of a value, entering enums through their variant.
fn value_paths(m: &M, path: &mut Vec<Key>, out: &mut Vec<Vec<Key>>, depth: usize) {
    out.push(path.clone());
    if depth == 0 {
        return;
    }
    let mut go = |k: Key, c: &M| {
        path.push(k);
        value_paths(c, path, out, depth - 1);
        path.pop();
    };
    match m {
        M::Struct(f) => f.iter().for_each(|(n, c)| go(Key::named_field(n.clone()), c)),
        M::TupleStruct(f) | M::Tuple(f) => {
            f.iter().enumerate().for_each(|(i, c)| go(Key::numbered_field(i), c))
        }
        M::List(f) | M::Array(f) => f.iter().enumerate().for_each(|(i, c)| go(Key::get(i), c)),
        // a key finer than its scalar can't be written in a path
        M::Map(e) => e.iter().filter(|(k, _)| *k == k.rounded()).for_each(|(k, c)| go(Key::Get(k.to_value()), c)),
        M::Enum(n, _, f) => {
            path.push(Key::variant(n.clone()));
            out.push(path.clone());
            for (i, (n, c)) in f.iter().enumerate() {
                path.push(match n {
                    Some(n) => Key::named_field(n.clone()),
                    None => Key::numbered_field(i),
                });
                value_paths(c, path, out, depth - 1);
                path.pop();
            }
            path.pop();
        }
        M::S(_) | M::Via(..) | M::Opaque(_) => {}
    }
}

fn run(ctx: &mut Ctx) {
    let depth = ctx.pick(3, 4);
    let n = ctx.pick(6, 100);
    for ty in universe() {
        ctx.unit(ty.name, |ctx| {
            let d = (ty.desc)();
            let root = At::T((ty.t)());
            ctx.case(|| "at the empty path".into(), |st| check(st, &d, &[], Some(&root)));
            explore(ctx, &d, &root, &mut vec![], depth);
            for x in ty.all(n, 3) {
                let m = x.m();
                let mut paths = vec![];
                value_paths(&m, &mut vec![], &mut paths, usize::MAX);
                ctx.case(
                    || format!("paths of {m:?}"),
                    |st| {
                        for path in &paths {
                            let kp = keys(path);
                            let part = x.r().at(&kp).ok_or(format!("{kp} not found in the value"))?;
                            // as far as the types are known statically
                            let mut at = root.clone();
                            let mut known = true;
                            for k in path {
                                match step(&at, k) {
                                    Ok(Some(next)) => at = next,
                                    _ => known = false,
                                }
                            }
                            let got = follow(&d, path)?;
                            st.tr(path.len() + 5);
                            if !known {
                                ensure!(got.is_none(), "{kp} leads somewhere in an opaque type");
                                continue;
                            }
                            let got = got.ok_or(format!("{kp} leads nowhere in the type"))?;
                            let mut n = 0;
                            cmp(&mut n, got, &at).map_err(|e| format!("{kp}: {e}"))?;
                            st.tr(n);
                            // the part describes itself the same way
                            if !matches!(at, At::T(T::Dyn(_))) {
                                let pd = part.type_descriptor();
                                ensure_eq!(pd.type_name(), got.type_name(), "type name of the part at {kp}");
                                match &at {
                                    At::T(t) => ensure_eq!(kind(pd.get_type()), t.kind(), "kind of the part at {kp}"),
                                    At::V(_, v) => ensure_eq!(
                                        part.as_enum().map(|e| e.variant_name().to_owned()),
                                        Some(v.name.to_owned()),
                                        "variant at {kp}"
                                    ),
                                }
                            }
                        }
                        Ok(())
                    },
                );
            }
        });
    }
}
