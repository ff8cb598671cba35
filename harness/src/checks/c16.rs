use super::*;

pub const CHECK: Check = Check {
    id: "C16",
    run,
    bounds: "every type of the universe, up to 30 (thorough 600) values of each nested up to 3 (5) deep, and long (33 and 257 parts) and deep (33 levels) ones, every part of each; every shared, mutable and owned view and accessor of every kind; downcasts of every value to every type of the universe",
    extra: None,
};

type RefRoute = (&'static str, &'static str, for<'a> fn(&'a dyn Reflect) -> Option<&'a dyn Reflect>);
type MutRoute = (&'static str, &'static str, for<'a> fn(&'a mut dyn Reflect) -> Option<&'a mut dyn Reflect>);
type OwnedRoute = (&'static str, &'static str, fn(Box<dyn Reflect>) -> Option<Box<dyn Reflect>>);

const REFS: &[RefRoute] = &[
    ("Struct", "as_struct", |r| r.as_struct().map(|v| v.as_reflect())),
    ("TupleStruct", "as_tuple_struct", |r| r.as_tuple_struct().map(|v| v.as_reflect())),
    ("Tuple", "as_tuple", |r| r.as_tuple().map(|v| v.as_reflect())),
    ("Enum", "as_enum", |r| r.as_enum().map(|v| v.as_reflect())),
    ("List", "as_list", |r| r.as_list().map(|v| v.as_reflect())),
    ("Array", "as_array", |r| r.as_array().map(|v| v.as_reflect())),
    ("Map", "as_map", |r| r.as_map().map(|v| v.as_reflect())),
    ("Struct", "ReflectRef::as_struct", |r| r.reflect_ref().as_struct().map(|v| v.as_reflect())),
    ("TupleStruct", "ReflectRef::as_tuple_struct", |r| r.reflect_ref().as_tuple_struct().map(|v| v.as_reflect())),
    ("Tuple", "ReflectRef::as_tuple", |r| r.reflect_ref().as_tuple().map(|v| v.as_reflect())),
    ("Enum", "ReflectRef::as_enum", |r| r.reflect_ref().as_enum().map(|v| v.as_reflect())),
    ("List", "ReflectRef::as_list", |r| r.reflect_ref().as_list().map(|v| v.as_reflect())),
    ("Array", "ReflectRef::as_array", |r| r.reflect_ref().as_array().map(|v| v.as_reflect())),
    ("Map", "ReflectRef::as_map", |r| r.reflect_ref().as_map().map(|v| v.as_reflect())),
    ("Opaque", "ReflectRef::as_opaque", |r| r.reflect_ref().as_opaque()),
];

const MUTS: &[MutRoute] = &[
    ("Struct", "as_struct_mut", |r| r.as_struct_mut().map(|v| v.as_reflect_mut())),
    ("TupleStruct", "as_tuple_struct_mut", |r| r.as_tuple_struct_mut().map(|v| v.as_reflect_mut())),
    ("Tuple", "as_tuple_mut", |r| r.as_tuple_mut().map(|v| v.as_reflect_mut())),
    ("Enum", "as_enum_mut", |r| r.as_enum_mut().map(|v| v.as_reflect_mut())),
    ("List", "as_list_mut", |r| r.as_list_mut().map(|v| v.as_reflect_mut())),
    ("Array", "as_array_mut", |r| r.as_array_mut().map(|v| v.as_reflect_mut())),
    ("Map", "as_map_mut", |r| r.as_map_mut().map(|v| v.as_reflect_mut())),
    ("Struct", "ReflectMut::as_struct_mut", |r| r.reflect_mut().as_struct_mut().map(|v| v.as_reflect_mut())),
    ("TupleStruct", "ReflectMut::as_tuple_struct_mut", |r| r.reflect_mut().as_tuple_struct_mut().map(|v| v.as_reflect_mut())),
    ("Tuple", "ReflectMut::as_tuple_mut", |r| r.reflect_mut().as_tuple_mut().map(|v| v.as_reflect_mut())),
    ("Enum", "ReflectMut::as_enum_mut", |r| r.reflect_mut().as_enum_mut().map(|v| v.as_reflect_mut())),
    ("List", "ReflectMut::as_list_mut", |r| r.reflect_mut().as_list_mut().map(|v| v.as_reflect_mut())),
    ("Array", "ReflectMut::as_array_mut", |r| r.reflect_mut().as_array_mut().map(|v| v.as_reflect_mut())),
    ("Map", "ReflectMut::as_map_mut", |r| r.reflect_mut().as_map_mut().map(|v| v.as_reflect_mut())),
    ("Opaque", "ReflectMut::as_opaque_mut", |r| r.reflect_mut().as_opaque_mut()),
    ("*", "as_reflect_mut", |r| Some(r.as_reflect_mut())),
];

fn owned(o: ReflectOwned) -> (&'static str, Option<Box<dyn Reflect>>) {
    match o {
        ReflectOwned::Struct(v) => ("Struct", Some(v)),
        ReflectOwned::TupleStruct(v) => ("TupleStruct", Some(v)),
        ReflectOwned::Tuple(v) => ("Tuple", Some(v)),
        ReflectOwned::Enum(v) => ("Enum", Some(v)),
        ReflectOwned::List(v) => ("List", Some(v)),
        ReflectOwned::Array(v) => ("Array", Some(v)),
        ReflectOwned::Map(v) => ("Map", Some(v)),
        ReflectOwned::Opaque(v) => ("Opaque", Some(v)),
        ReflectOwned::Scalar(_) => ("Scalar", None),
    }
}

const OWNED: &[OwnedRoute] = &[
    ("Struct", "into_struct", |r| r.into_struct().map(|v| v as _)),
    ("TupleStruct", "into_tuple_struct", |r| r.into_tuple_struct().map(|v| v as _)),
    ("Tuple", "into_tuple", |r| r.into_tuple().map(|v| v as _)),
    ("Enum", "into_enum", |r| r.into_enum().map(|v| v as _)),
    ("List", "into_list", |r| r.into_list().map(|v| v as _)),
    ("Array", "into_array", |r| r.into_array().map(|v| v as _)),
    ("Map", "into_map", |r| r.into_map().map(|v| v as _)),
    ("Struct", "ReflectOwned::into_struct", |r| r.reflect_owned().into_struct().map(|v| v as _)),
    ("TupleStruct", "ReflectOwned::into_tuple_struct", |r| r.reflect_owned().into_tuple_struct().map(|v| v as _)),
    ("Tuple", "ReflectOwned::into_tuple", |r| r.reflect_owned().into_tuple().map(|v| v as _)),
    ("Enum", "ReflectOwned::into_enum", |r| r.reflect_owned().into_enum().map(|v| v as _)),
    ("List", "ReflectOwned::into_list", |r| r.reflect_owned().into_list().map(|v| v as _)),
    ("Array", "ReflectOwned::into_array", |r| r.reflect_owned().into_array().map(|v| v as _)),
    ("Map", "ReflectOwned::into_map", |r| r.reflect_owned().into_map().map(|v| v as _)),
    ("Opaque", "ReflectOwned::into_opaque", |r| r.reflect_owned().into_opaque()),
    ("*", "ReflectOwned", |r| owned(r.reflect_owned()).1),
];

fn shown(m: &M) -> Option<&S> {
    match m {
        M::S(s) | M::Via(_, s, _) => Some(s),
        _ => None,
    }
}

fn ref_kind(r: ReflectRef<'_>) -> &'static str {
    match r {
        ReflectRef::Struct(_) => "Struct",
        ReflectRef::TupleStruct(_) => "TupleStruct",
        ReflectRef::Tuple(_) => "Tuple",
        ReflectRef::Enum(_) => "Enum",
        ReflectRef::List(_) => "List",
        ReflectRef::Array(_) => "Array",
        ReflectRef::Map(_) => "Map",
        ReflectRef::Scalar(_) => "Scalar",
        ReflectRef::Opaque(_) => "Opaque",
    }
}

fn mut_kind(r: &ReflectMut<'_>) -> &'static str {
    match r {
        ReflectMut::Struct(_) => "Struct",
        ReflectMut::TupleStruct(_) => "TupleStruct",
        ReflectMut::Tuple(_) => "Tuple",
        ReflectMut::Enum(_) => "Enum",
        ReflectMut::List(_) => "List",
        ReflectMut::Array(_) => "Array",
        ReflectMut::Map(_) => "Map",
        ReflectMut::Scalar(_) => "Scalar",
        ReflectMut::Opaque(_) => "Opaque",
    }
}

/// The shared views.
fn refs(r: &dyn Reflect, m: &M, st: &mut Stats) -> Result<(), String> {
    let kind = m.kind();
    ensure_eq!(ref_kind(r.reflect_ref()), kind, "kind of {m:?}");
    let size0 = std::mem::size_of_val(r) == 0;
    for (k, route, get) in REFS {
        st.tr(1);
        match get(r) {
            Some(v) => {
                ensure!(*k == kind, "{route} of {m:?} is there");
                exactly(&observe(v), m, route)?;
                ensure!(size0 || addr(v) == addr(r), "{route} of {m:?} is another value");
                ensure_eq!(v.as_any().type_id(), r.as_any().type_id(), "type of {route} of {m:?}");
            }
            None => ensure!(*k != kind, "{route} of {m:?} is absent"),
        }
    }
    let v = r.as_reflect();
    exactly(&observe(v), m, "as_reflect")?;
    ensure!(addr(v) == addr(r), "as_reflect of {m:?} is another value");
    let view = r.reflect_ref();
    match shown(m) {
        None => {
            ensure!(r.as_scalar().is_none(), "as_scalar of {m:?} is there");
            ensure!(r.reflect_ref().as_scalar().is_none(), "ReflectRef::as_scalar of {m:?} is there");
            exactly(&observe(view.as_reflect()), m, "ReflectRef::as_reflect")?;
            ensure!(addr(view.as_reflect()) == addr(r), "ReflectRef::as_reflect of {m:?} is another value");
        }
        Some(s) => {
            ensure_eq!(r.as_scalar().map(scalar), Some(s.clone()), "as_scalar of {m:?}");
            ensure_eq!(r.reflect_ref().as_scalar().map(scalar), Some(s.clone()), "ReflectRef::as_scalar of {m:?}");
            exactly(&observe(view.as_reflect()), &M::S(s.clone()), "ReflectRef::as_reflect")?;
            let v = r.as_scalar().unwrap();
            exactly(&observe(v.as_reflect()), &M::S(s.clone()), "ScalarRef::as_reflect")?;
            if let (S::Str(_), M::S(_)) = (s, m) {
                ensure!(addr(v.as_reflect()) == addr(r), "ScalarRef::as_reflect of {m:?} is another string");
            }
            // the same kind of scalar compares equal to itself only
            ensure!(r.as_scalar() == r.as_scalar() || !s.rust_eq(s), "ScalarRef of {m:?} differs from itself");
        }
    }
    st.tr(6);
    Ok(())
}

/// The mutable views of the part of `x` at `path`.
fn muts(x: &dyn Obj, path: &[usize], st: &mut Stats) -> Result<(), String> {
    let whole = x.m();
    let m = whole.get(path).clone();
    // non-zero integers and durations can't be changed in place
    let kind = if let M::Via(..) = m { "Opaque" } else { m.kind() };
    fn at<'a>(mut r: &'a mut dyn Reflect, path: &[usize]) -> &'a mut dyn Reflect {
        for i in path {
            r = child_mut(r, *i).unwrap();
        }
        r
    }
    let mut x = x.dup();
    {
        let r = at(x.rm(), path);
        let a = addr(r);
        let size0 = std::mem::size_of_val(r) == 0;
        ensure_eq!(mut_kind(&r.reflect_mut()), kind, "mutable kind of {m:?}");
        {
            let mut v = r.reflect_mut();
            exactly(&observe(v.as_reflect()), &m, "ReflectMut::as_reflect")?;
            ensure!(size0 || addr(v.as_reflect()) == a, "ReflectMut::as_reflect of {m:?} is another value");
            exactly(&observe_mut(v.as_reflect_mut()), &m, "ReflectMut::as_reflect_mut")?;
            ensure!(size0 || addr(v.as_reflect_mut()) == a, "ReflectMut::as_reflect_mut of {m:?} is another value");
        }
        for (k, route, get) in MUTS {
            st.tr(1);
            match get(r) {
                Some(v) => {
                    ensure!(*k == kind || *k == "*", "{route} of {m:?} is there");
                    exactly(&observe_mut(v), &m, route)?;
                    ensure!(size0 || addr(v) == a, "{route} of {m:?} is another value");
                }
                None => ensure!(*k != kind, "{route} of {m:?} is absent"),
            }
        }
        match &m {
            M::S(s) => {
                ensure_eq!(r.as_scalar_mut().map(|v| scalar_mut(&v)), Some(s.clone()), "as_scalar_mut of {m:?}");
                ensure_eq!(
                    r.reflect_mut().as_scalar_mut().map(|v| scalar_mut(&v)),
                    Some(s.clone()),
                    "ReflectMut::as_scalar_mut of {m:?}"
                );
                let mut v = r.as_scalar_mut().unwrap();
                exactly(&observe(v.as_reflect()), &m, "ScalarMut::as_reflect")?;
                exactly(&observe_mut(v.as_reflect_mut()), &m, "ScalarMut::as_reflect_mut")?;
                ensure!(addr(v.as_reflect()) == a, "ScalarMut::as_reflect of {m:?} is another value");
                ensure!(addr(v.as_reflect_mut()) == a, "ScalarMut::as_reflect_mut of {m:?} is another value");
            }
            _ => {
                ensure!(r.as_scalar_mut().is_none(), "as_scalar_mut of {m:?} is there");
                ensure!(r.reflect_mut().as_scalar_mut().is_none(), "ReflectMut::as_scalar_mut of {m:?} is there");
            }
        }
    }
    exactly(&x.m(), &whole, "after looking at the mutable views")?;
    // writing through the views
    for (k, route, get) in MUTS {
        if *k != kind && *k != "*" {
            continue;
        }
        let mut y = x.dup();
        let Some(new) = poke(get(at(y.rm(), path)).unwrap(), &m) else { continue };
        let mut expected = whole.clone();
        *expected.get_mut(path) = new;
        same(&y.m(), &expected, &format!("after changing through {route}"))?;
        st.state(&expected);
        st.tr(1);
    }
    let mut y = x.dup();
    if let Some(new) = poke(at(y.rm(), path).reflect_mut().as_reflect_mut(), &m) {
        let mut expected = whole.clone();
        *expected.get_mut(path) = new;
        same(&y.m(), &expected, "after changing through ReflectMut::as_reflect_mut")?;
        st.tr(1);
    }
    if let M::S(s) = &m {
        let new = s.alt();
        let mut expected = whole.clone();
        *expected.get_mut(path) = M::S(new.clone());
        for route in 0..4 {
            let mut y = x.dup();
            let r = at(y.rm(), path);
            match route {
                0 => set_scalar(r.as_scalar_mut().unwrap(), &new),
                1 => set_scalar(r.reflect_mut().as_scalar_mut().unwrap(), &new),
                2 => r.as_scalar_mut().unwrap().as_reflect_mut().patch(&new.to_value()),
                _ => {
                    let ReflectMut::Scalar(v) = r.reflect_mut() else { unreachable!() };
                    set_scalar(v, &new);
                }
            }
            same(&y.m(), &expected, &format!("after changing through mutable scalar view {route}"))?;
            st.tr(1);
        }
    }
    Ok(())
}

/// The owned views.
fn owneds(x: &dyn Obj, boxed: fn(&dyn Obj) -> Box<dyn Reflect>, st: &mut Stats) -> Result<(), String> {
    let m = x.m();
    let kind = m.kind();
    let (k, _) = owned(boxed(x).reflect_owned());
    ensure_eq!(k, kind, "kind of the owned view of {m:?}");
    for (k, route, get) in OWNED {
        st.tr(1);
        match get(boxed(x)) {
            Some(v) => {
                ensure!(*k == kind || *k == "*", "{route} of {m:?} is there");
                exactly(&observe(&*v), &m, route)?;
                ensure_eq!(v.as_any().type_id(), x.any_id(), "type of {route} of {m:?}");
                let mut v = v;
                if let Some(new) = poke(&mut *v, &m) {
                    same(&observe(&*v), &new, &format!("{route} after changing it"))?;
                }
            }
            None => ensure!(*k != kind && (*k != "*" || kind == "Scalar"), "{route} of {m:?} is absent"),
        }
    }
    let o = boxed(x).reflect_owned();
    match shown(&m) {
        Some(s) => {
            exactly(&observe(o.as_reflect()), &M::S(s.clone()), "ReflectOwned::as_reflect")?;
            ensure_eq!(boxed(x).into_scalar().map(|v| scalar_owned(&v)), Some(s.clone()), "into_scalar of {m:?}");
            ensure_eq!(
                boxed(x).reflect_owned().into_scalar().map(|v| scalar_owned(&v)),
                Some(s.clone()),
                "ReflectOwned::into_scalar of {m:?}"
            );
            let mut v = boxed(x).into_scalar().unwrap();
            exactly(&observe(v.as_reflect()), &M::S(s.clone()), "ScalarOwned::as_reflect")?;
            exactly(&observe_mut(v.as_reflect_mut()), &M::S(s.clone()), "ScalarOwned::as_reflect_mut")?;
            let new = s.alt();
            set_scalar(v.as_reflect_mut().as_scalar_mut().unwrap(), &new);
            ensure_eq!(scalar_owned(&v), new, "ScalarOwned after changing it");
            exactly(&observe(v.clone().as_reflect()), &M::S(new.clone()), "clone of ScalarOwned")?;
            let mut o = o;
            poke(o.as_reflect_mut(), &M::S(s.clone()));
            exactly(&observe(o.as_reflect()), &M::S(new.clone()), "ReflectOwned after changing it")?;
            let ReflectOwned::Scalar(v) = o else { return Err("kind of owned scalar changed".into()) };
            ensure_eq!(scalar_owned(&v), new, "ScalarOwned after changing it through ReflectOwned");
        }
        None => {
            exactly(&observe(o.as_reflect()), &m, "ReflectOwned::as_reflect")?;
            ensure!(boxed(x).into_scalar().is_none(), "into_scalar of {m:?} is there");
            ensure!(boxed(x).reflect_owned().into_scalar().is_none(), "ReflectOwned::into_scalar of {m:?} is there");
            let mut o = o;
            ensure_eq!(o.as_reflect().as_any().type_id(), x.any_id(), "type of ReflectOwned::as_reflect of {m:?}");
            ensure_eq!(o.as_reflect_mut().as_any_mut().type_id(), x.any_id(), "type of ReflectOwned::as_reflect_mut of {m:?}");
            ensure!(addr(o.as_reflect()) == addr(o.as_reflect_mut()), "views of ReflectOwned of {m:?} differ");
            if let Some(new) = poke(o.as_reflect_mut(), &m) {
                same(&observe(o.as_reflect()), &new, "ReflectOwned after changing it")?;
                let (_, v) = owned(o);
                same(&observe(&*v.unwrap()), &new, "inside of ReflectOwned after changing it")?;
            }
        }
    }
    st.tr(6);
    Ok(())
}

fn at<'a>(mut r: &'a dyn Reflect, path: &[usize]) -> &'a dyn Reflect {
    for i in path {
        r = child(r, *i).unwrap();
    }
    r
}

fn run(ctx: &mut Ctx) {
    let (n, d) = (ctx.pick(30, 600), ctx.pick(3, 5));
    let all = universe();
    for ty in universe() {
        ctx.unit(ty.name, |ctx| {
            let vals = ty.all(n, d);
            for x in &vals {
                ctx.case(
                    || format!("views of {:?}", x.m()),
                    |st| {
                        let m = x.m();
                        st.state(&(ty.name, &m));
                        for path in parts(&m) {
                            refs(at(x.r(), &path), m.get(&path), st)?;
                            muts(&**x, &path, st)?;
                        }
                        if ty.self_any {
                            ensure_eq!(addr(x.r()), x.addr(), "address of {m:?}");
                        }
                        owneds(&**x, |x| x.boxed(), st)?;
                        owneds(&**x, |x| x.boxed_boxed(), st)?;
                        let b = x.boxed_boxed();
                        for path in parts(&m) {
                            refs(at(&*b, &path), m.get(&path), st)?;
                        }
                        Ok(())
                    },
                );
                ctx.case(
                    || format!("downcasts of {:?}", x.m()),
                    |st| {
                        let m = x.m();
                        let mut y = x.dup();
                        let mut b = x.boxed_boxed();
                        let mut found = 0;
                        for t in &all {
                            let expected = (t.id == x.any_id()).then(|| m.clone());
                            found += expected.is_some() as usize;
                            ensure_eq!((t.down)(x.r()).map(|v| v.0), expected, "downcast_ref::<{}>", t.name);
                            ensure_eq!((t.down_mut)(y.rm()).map(|v| v.0), expected, "downcast_mut::<{}>", t.name);
                            ensure_eq!((t.down)(&*b).map(|v| v.0), expected, "downcast_ref::<{}> of a box", t.name);
                            ensure_eq!((t.down_mut)(&mut *b).map(|v| v.0), expected, "downcast_mut::<{}> of a box", t.name);
                            if let Some((_, a)) = (t.down)(x.r()) {
                                ensure_eq!(a, addr(x.r()), "address of downcast_ref::<{}>", t.name);
                            }
                            if let Some((_, a)) = (t.down_mut)(y.rm()) {
                                ensure_eq!(a, addr(y.r()), "address of downcast_mut::<{}>", t.name);
                            }
                            st.tr(4);
                        }
                        if ty.self_any {
                            assert!(found >= 1);
                            ensure_eq!(x.r().type_name(), ty.name, "type_name of {m:?}");
                            ensure_eq!(Reflect::type_id(x.r()), ty.id, "type_id of {m:?}");
                        }
                        Ok(())
                    },
                );
            }
            // a box behaves like what is in it
            for x in &vals {
                ctx.case(
                    || format!("box of {:?}", x.m()),
                    |st| {
                        let m = x.m();
                        let b = x.boxed_boxed();
                        exactly(&observe(&*b), &m, "box")?;
                        exactly(&observe_at(&*b), &m, "box by index")?;
                        exactly(&observe(&b.to_value()), &observe(&x.r().to_value()), "to_value of a box")?;
                        ensure_eq!(format!("{:?}", &*b), format!("{:?}", x.r()), "debug output of a box");
                        ensure_eq!(b.type_descriptor().type_name().to_owned(), x.r().type_descriptor().type_name().to_owned(), "type of a box");
                        ensure!(*b.type_descriptor() == *x.r().type_descriptor(), "type descriptor of a box");
                        let c = b.clone_reflect();
                        exactly(&observe(&*c), &m, "clone of a box")?;
                        ensure_eq!(c.as_any().type_id(), x.any_id(), "type of the clone of a box");
                        ensure_eq!(reflect_eq(&*b, x.r()), reflect_eq(x.r(), x.r()), "equality of a box");
                        ensure_eq!(reflect_eq(x.r(), &*b), reflect_eq(x.r(), x.r()), "equality with a box");
                        let back = (ty.from)(&*b);
                        ensure!(back.is_some() == (ty.from)(x.r()).is_some(), "reading from a box");
                        if let Some(back) = back {
                            exactly(&back.m(), &m, "read from a box")?;
                        }
                        for y in vals.iter().take(8) {
                            let mut b = x.boxed_boxed();
                            b.patch(y.r());
                            let mut z = x.dup();
                            z.rm().patch(&*y.boxed_boxed());
                            let mut w = x.dup();
                            w.rm().patch(y.r());
                            exactly(&observe(&*b), &w.m(), "patched box")?;
                            exactly(&z.m(), &w.m(), "patched with a box")?;
                            st.tr(3);
                        }
                        st.state(&(ty.name, &m, 1));
                        Ok(())
                    },
                );
            }
        });
    }
}
