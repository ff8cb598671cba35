use super::*;
use mirror_mirror::enum_::{VariantField, VariantFieldMut};

pub const CHECK: Check = Check {
    id: "C02",
    run,
    bounds: "every type of the universe, up to 8 (thorough 600) values of each nested up to 3 (5) deep, and long (33 and 257 parts) and deep (33 levels) ones; every leaf written through every route; values in skipped variants of every kind",
    extra: None,
};


/// Everything the accessors of the value say, compared with its content. Returns the number of
/// accesses.
fn probe(r: &dyn Reflect, m: &M, t: &T) -> Result<usize, String> {
    let mut n = 1;
    let names = all_names();
    macro_rules! seq {
        ($s:expr, $f:expr, $what:literal) => {{
            let (s, f) = ($s, $f);
            ensure_eq!(s.fields_len(), f.len(), "{} fields_len", $what);
            for i in 0..f.len() {
                let at = s.field_at(i).ok_or(format!("no field {i}"))?;
                let it = s.fields().nth(i).ok_or(format!("no field {i} when iterating"))?;
                ensure_eq!(addr(at), addr(it), "{} field {i} by index and by iterating", $what);
                n += 2 + probe(at, &f[i], &t.child_type(m, i))?;
            }
            ensure_eq!(s.fields().count(), f.len(), "{} fields iterated", $what);
            for i in past(f.len()) {
                ensure!(s.field_at(i).is_none(), "{} has a field {}", $what, i);
                n += 1;
            }
        }};
    }
    macro_rules! named {
        ($s:expr, $f:expr, $what:literal) => {{
            let (s, f) = ($s, $f);
            ensure_eq!(s.fields_len(), f.len(), "{} fields_len", $what);
            for (i, (name, fm)) in f.iter().enumerate() {
                let at = s.field_at(i).ok_or(format!("no field {i}"))?;
                ensure_eq!(s.name_at(i), Some(name.as_str()), "name of field {i}");
                let by_name = s.field(name).ok_or(format!("no field {name}"))?;
                ensure_eq!(addr(at), addr(by_name), "{} field {name} by name and by index", $what);
                exactly(&observe(by_name), fm, "field by name")?;
                n += 3 + probe(at, fm, &t.child_type(m, i))?;
            }
            for i in past(f.len()) {
                ensure!(s.field_at(i).is_none(), "{} has a field {i}", $what);
                ensure!(s.name_at(i).is_none(), "{} has a name for field {i}", $what);
                n += 2;
            }
            for name in &names {
                if !f.iter().any(|(o, _)| o == name) {
                    ensure!(s.field(name).is_none(), "{} has a field {name:?}", $what);
                    n += 1;
                }
            }
        }};
    }
    match m {
        M::S(_) | M::Via(..) | M::Opaque(_) => exactly(&observe(r), m, "leaf")?,
        M::Struct(f) => {
            let s = r.as_struct().ok_or("not a struct")?;
            named!(s, f, "struct");
            let it: Vec<_> = s.fields().map(|(n, r)| (n.to_owned(), addr(r))).collect();
            let at: Vec<_> = f.iter().map(|(n, _)| (n.clone(), addr(s.field(n).unwrap()))).collect();
            ensure_eq!(it, at, "fields when iterating");
        }
        M::TupleStruct(f) => seq!(r.as_tuple_struct().ok_or("not a tuple struct")?, f, "tuple struct"),
        M::Tuple(f) => seq!(r.as_tuple().ok_or("not a tuple")?, f, "tuple"),
        M::Enum(name, kind, f) => {
            let e = r.as_enum().ok_or("not an enum")?;
            ensure_eq!(e.variant_name(), name.as_str(), "variant name");
            ensure_eq!(vk(e.variant_kind()), *kind, "variant kind");
            let expected = match t {
                T::Enum { variants, .. } => variants.len(),
                _ => 1,
            };
            ensure_eq!(e.variants_len(), expected, "number of variants");
            let it: Vec<_> = e
                .fields()
                .map(|f| match f {
                    VariantField::Struct(n, r) => (Some(n.to_owned()), addr(r)),
                    VariantField::Tuple(r) => (None, addr(r)),
                })
                .collect();
            let at: Vec<_> = (0..f.len())
                .map(|i| (f[i].0.clone(), e.field_at(i).map_or(0, addr)))
                .collect();
            ensure_eq!(it, at, "fields when iterating");
            match kind {
                VK::Struct => {
                    let f: Vec<_> =
                        f.iter().map(|(n, m)| (n.clone().unwrap(), m.clone())).collect();
                    named!(e, f, "struct variant");
                }
                _ => {
                    ensure_eq!(e.fields_len(), f.len(), "number of fields");
                    for (i, (_, fm)) in f.iter().enumerate() {
                        let at = e.field_at(i).ok_or(format!("no field {i}"))?;
                        ensure!(e.name_at(i).is_none(), "field {i} of a tuple variant has a name");
                        n += 2 + probe(at, fm, &t.child_type(m, i))?;
                    }
                    for i in past(f.len()) {
                        ensure!(e.field_at(i).is_none(), "variant has a field {}", i);
                        ensure!(e.name_at(i).is_none(), "variant has a field name {}", i);
                        n += 2;
                    }
                    for name in &names {
                        ensure!(e.field(name).is_none(), "variant has a field {name:?}");
                        n += 1;
                    }
                }
            }
        }
        M::List(f) | M::Array(f) => {
            let l: &dyn mirror_mirror::Array = match r.reflect_ref() {
                ReflectRef::List(l) => {
                    ensure_eq!(l.len(), f.len(), "length of the list");
                    ensure_eq!(l.is_empty(), f.is_empty(), "is_empty of the list");
                    let it: Vec<_> = l.iter().map(addr).collect();
                    let at: Vec<_> = (0..f.len()).map(|i| l.get(i).map_or(0, addr)).collect();
                    ensure_eq!(it, at, "elements when iterating");
                    for (i, fm) in f.iter().enumerate() {
                        n += 2 + probe(l.get(i).ok_or("no element")?, fm, &t.child_type(m, i))?;
                    }
                    for i in past(f.len()) {
                        ensure!(l.get(i).is_none(), "list has element {}", i);
                    }
                    return Ok(n);
                }
                ReflectRef::Array(l) => l,
                _ => return Err("not a list or array".into()),
            };
            ensure_eq!(l.len(), f.len(), "length of the array");
            ensure_eq!(l.is_empty(), f.is_empty(), "is_empty of the array");
            let it: Vec<_> = l.iter().map(addr).collect();
            let at: Vec<_> = (0..f.len()).map(|i| l.get(i).map_or(0, addr)).collect();
            ensure_eq!(it, at, "elements when iterating");
            for (i, fm) in f.iter().enumerate() {
                n += 2 + probe(l.get(i).ok_or("no element")?, fm, &t.child_type(m, i))?;
            }
            for i in past(f.len()) {
                ensure!(l.get(i).is_none(), "array has element {}", i);
                n += 1;
            }
        }
        M::Map(e) => {
            let l = r.as_map().ok_or("not a map")?;
            ensure_eq!(l.len(), e.len(), "length of the map");
            ensure_eq!(l.is_empty(), e.is_empty(), "is_empty of the map");
            ensure_eq!(l.iter().count(), e.len(), "entries when iterating");
            let vt = |i| t.child_type(m, i);
            for (i, (k, v)) in l.iter().enumerate() {
                exactly(&observe(k), &e[i].0, "key")?;
                n += 1 + probe(v, &e[i].1, &vt(i))?;
                // keys with skipped fields can't be told apart
                if !e.iter().enumerate().any(|(j, (o, _))| j != i && *o == e[i].0) {
                    let by_key = l.get(k).ok_or(format!("key {:?} not found", e[i].0))?;
                    ensure_eq!(addr(by_key), addr(v), "value by key and by iterating");
                    n += 1;
                }
            }
            for bad in [
                M::S(S::Str("no such key".into())),
                M::S(S::I32(12345)),
                M::Tuple(vec![]),
                M::List(vec![M::S(S::U8(1))]),
            ] {
                if !e.iter().any(|(k, _)| k.erased() == bad) {
                    ensure!(l.get(&bad.to_value()).is_none(), "map has the key {bad:?}");
                    n += 1;
                }
            }
        }
    }
    Ok(n)
}


#[derive(Clone, Copy, Debug)]
enum Route {
    Index,
    Name,
    Iter,
}

/// Mutable access to a child by the given route.
fn child_by<'a>(r: &'a mut dyn Reflect, m: &M, i: usize, route: Route) -> Option<&'a mut dyn Reflect> {
    match (r.reflect_mut(), m) {
        (ReflectMut::Struct(s), M::Struct(f)) => match route {
            Route::Index => s.field_at_mut(i),
            Route::Name => s.field_mut(&f[i].0),
            Route::Iter => {
                let (n, r) = s.fields_mut().nth(i)?;
                assert_eq!(n, f[i].0, "name of field {i} when iterating mutably");
                Some(r)
            }
        },
        (ReflectMut::TupleStruct(s), _) => match route {
            Route::Iter => s.fields_mut().nth(i),
            _ => s.field_at_mut(i),
        },
        (ReflectMut::Tuple(s), _) => match route {
            Route::Iter => s.fields_mut().nth(i),
            _ => s.field_at_mut(i),
        },
        (ReflectMut::Enum(s), M::Enum(_, _, f)) => match (route, &f[i].0) {
            (Route::Name, Some(n)) => s.field_mut(n),
            (Route::Iter, _) => match s.fields_mut().nth(i)? {
                VariantFieldMut::Struct(n, r) => {
                    assert_eq!(Some(n), f[i].0.as_deref(), "name of field {i} when iterating mutably");
                    Some(r)
                }
                VariantFieldMut::Tuple(r) => {
                    assert!(f[i].0.is_none(), "field {i} has a name");
                    Some(r)
                }
            },
            _ => s.field_at_mut(i),
        },
        (ReflectMut::List(s), _) => match route {
            Route::Iter => s.iter_mut().nth(i),
            _ => s.get_mut(i),
        },
        (ReflectMut::Array(s), _) => match route {
            Route::Iter => s.iter_mut().nth(i),
            _ => s.get_mut(i),
        },
        (ReflectMut::Map(s), M::Map(_)) => match route {
            Route::Iter => s.iter_mut().nth(i).map(|(_, v)| v),
            _ => {
                let key = s.iter().nth(i)?.0.clone_reflect();
                s.get_mut(&*key)
            }
        },
        _ => None,
    }
}

/// Mutable accesses that must find nothing.
fn probe_mut(r: &mut dyn Reflect, m: &M) -> Result<usize, String> {
    let mut n = 0;
    let names = all_names();
    let len = m.children().len();
    for i in past(len) {
        let found = match r.reflect_mut() {
            ReflectMut::Struct(s) => s.field_at_mut(i).is_some(),
            ReflectMut::TupleStruct(s) => s.field_at_mut(i).is_some(),
            ReflectMut::Tuple(s) => s.field_at_mut(i).is_some(),
            ReflectMut::Enum(s) => s.field_at_mut(i).is_some(),
            ReflectMut::List(s) => s.get_mut(i).is_some(),
            ReflectMut::Array(s) => s.get_mut(i).is_some(),
            _ => false,
        };
        ensure!(!found, "{m:?} has a mutable part {i}");
        n += 1;
    }
    for name in names {
        let (found, there) = match (r.reflect_mut(), m) {
            (ReflectMut::Struct(s), M::Struct(f)) => {
                (s.field_mut(name).is_some(), f.iter().any(|(o, _)| o == name))
            }
            (ReflectMut::Enum(s), M::Enum(_, _, f)) => (
                s.field_mut(name).is_some(),
                f.iter().any(|(o, _)| o.as_deref() == Some(name)),
            ),
            _ => (false, false),
        };
        ensure_eq!(found, there, "{m:?} has a mutable field {name:?}");
        n += 1;
    }
    let count = match r.reflect_mut() {
        ReflectMut::Struct(s) => s.fields_mut().count(),
        ReflectMut::TupleStruct(s) => s.fields_mut().count(),
        ReflectMut::Tuple(s) => s.fields_mut().count(),
        ReflectMut::Enum(s) => s.fields_mut().count(),
        ReflectMut::List(s) => s.iter_mut().count(),
        ReflectMut::Array(s) => s.iter_mut().count(),
        ReflectMut::Map(s) => s.iter_mut().count(),
        _ => 0,
    };
    ensure_eq!(count, len, "{m:?}: parts when iterating mutably");
    for (i, c) in m.children().into_iter().enumerate() {
        n += probe_mut(child_mut(r, i).ok_or(format!("{m:?} has no mutable part {i}"))?, c)?;
    }
    Ok(n)
}

fn run(ctx: &mut Ctx) {
    super::skipped::fields(ctx);
    let (n, d) = (ctx.pick(8, 600), ctx.pick(3, 5));
    for ty in universe() {
        ctx.unit(ty.name, |ctx| {
            for x in ty.all(n, d) {
                ctx.case(
                    || format!("read {:?}", x.m()),
                    |st| {
                        let t = (ty.t)();
                        let m = x.m();
                        st.state(&(ty.name, &m));
                        exactly(&observe(x.r()), &m, "by iterating")?;
                        exactly(&observe_at(x.r()), &m, "by index")?;
                        let mut y = x.dup();
                        exactly(&observe_mut(y.rm()), &m, "mutably")?;
                        exactly(&y.m(), &m, "after mutable access")?;
                        let n = probe(x.r(), &m, &t)?;
                        let n2 = probe_mut(y.rm(), &m)?;
                        exactly(&y.m(), &m, "after more mutable access")?;
                        ensure_eq!(y.hidden(), x.hidden(), "skipped fields");
                        st.tr(3 + n + n2);
                        Ok(())
                    },
                );
                for leaf in leaves(&x.m()) {
                    for route in [Route::Index, Route::Name, Route::Iter] {
                        ctx.case(
                            || format!("write {:?} at {leaf:?} by {route:?}", x.m()),
                            |st| {
                                let mut y = x.dup();
                                let m = y.m();
                                let hidden = y.hidden();
                                let mut expected = m.clone();
                                let new = leaf_alt(m.get(&leaf));
                                *expected.get_mut(&leaf) = new.clone();
                                {
                                    let mut r = y.rm();
                                    let mut at = &m;
                                    for i in &leaf {
                                        r = child_by(r, at, *i, route)
                                            .ok_or_else(|| format!("no part {i} of {at:?}"))?;
                                        at = at.children()[*i];
                                    }
                                    match &new {
                                        M::S(s) => set_scalar(
                                            r.as_scalar_mut().ok_or("no mutable scalar view")?,
                                            s,
                                        ),
                                        M::Via(_, s, _) => r.patch(&s.to_value()),
                                        M::Opaque(n) => {
                                            ensure!(set_opaque(r.as_any_mut(), *n), "not mutable as any")
                                        }
                                        _ => unreachable!(),
                                    }
                                }
                                st.state(&(ty.name, &expected));
                                st.tr(1);
                                same(&y.m(), &expected, "after writing")?;
                                same(&observe(y.r()), &expected, "reflected after writing")?;
                                ensure_eq!(y.hidden(), hidden, "skipped fields after writing");
                                Ok(())
                            },
                        );
                    }
                }
            }
        });
    }
}
