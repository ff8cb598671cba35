use super::*;
use std::borrow::ToOwned;

pub const CHECK: Check = Check {
    id: "C11",
    run,
    bounds: "every type of the universe, up to 12 (thorough 500) values of each nested up to 3 (5) deep, and long (33 and 257 parts) and deep (33 levels) ones; every way of cloning; every leaf of the clone and of the original changed",
    extra: None,
};

type Cloner = (&'static str, fn(&dyn Obj) -> Box<dyn Reflect>);

fn owned_clone(x: &dyn Obj) -> Box<dyn Reflect> {
    match x.boxed().reflect_owned().clone() {
        ReflectOwned::Struct(b) => b.as_reflect().clone_reflect(),
        ReflectOwned::TupleStruct(b) => b.as_reflect().clone_reflect(),
        ReflectOwned::Tuple(b) => b.as_reflect().clone_reflect(),
        ReflectOwned::Enum(b) => b.as_reflect().clone_reflect(),
        ReflectOwned::List(b) => b.as_reflect().clone_reflect(),
        ReflectOwned::Array(b) => b.as_reflect().clone_reflect(),
        ReflectOwned::Map(b) => b.as_reflect().clone_reflect(),
        ReflectOwned::Opaque(b) => b,
        ReflectOwned::Scalar(_) => x.r().clone_reflect(),
    }
}

const CLONERS: [Cloner; 5] = [
    ("clone_reflect", |x| x.r().clone_reflect()),
    ("to_owned", |x| x.r().to_owned()),
    ("clone of a box", |x| x.boxed().clone_reflect()),
    ("clone of a box in a box", |x| x.boxed_boxed().clone_reflect()),
    ("clone of the owned view", owned_clone),
];

fn change(r: &mut dyn Reflect, m: &M, leaf: &[usize]) -> M {
    let mut expected = m.clone();
    let new = leaf_alt(m.get(leaf));
    *expected.get_mut(leaf) = new.clone();
    let mut r = r;
    for i in leaf {
        r = child_mut(r, *i).unwrap();
    }
    match &new {
        M::S(s) => set_scalar(r.as_scalar_mut().unwrap(), s),
        M::Via(_, s, _) => r.patch(&s.to_value()),
        M::Opaque(n) => assert!(set_opaque(r.as_any_mut(), *n)),
        _ => unreachable!(),
    }
    expected
}

fn run(ctx: &mut Ctx) {
    super::skipped::clones(ctx);
    let (n, d) = (ctx.pick(12, 500), ctx.pick(3, 5));
    for ty in universe() {
        ctx.unit(ty.name, |ctx| {
            for x in ty.all(n, d) {
                for (what, cloner) in CLONERS {
                    ctx.case(
                        || format!("{what} of {:?}", x.m()),
                        |st| {
                            let m = x.m();
                            st.state(&(ty.name, &m, what));
                            let c = cloner(&*x);
                            st.tr(1);
                            exactly(&x.m(), &m, "original after cloning")?;
                            exactly(&observe(&*c), &m, "clone")?;
                            // same concrete type
                            match x.m_any(c.as_any()) {
                                Some(got) => exactly(&got, &m, "clone as its concrete type")?,
                                None => return Err(format!("clone is not a {} but a {}", ty.name, c.type_name())),
                            }
                            ensure_eq!(
                                c.as_any().type_id(),
                                x.r().as_any().type_id(),
                                "concrete type of the clone"
                            );
                            if what != "clone of the owned view" {
                            let (cd, xd) = (c.type_descriptor(), x.r().type_descriptor());
                            ensure_eq!(
                                cd.type_name(),
                                xd.type_name(),
                                "type descriptor of the clone"
                            );
                            }
                            if m.has_opaque() {
                                ensure!(reflect_eq(&*c, x.r()) != Some(true), "equal to its clone although unknown");
                            } else if !has_nan(&m) {
                                ensure_eq!(reflect_eq(&*c, x.r()), Some(true), "equal to its clone");
                            }
                            // changing one doesn't change the other
                            for leaf in leaves(&m) {
                                let mut c = cloner(&*x);
                                let e = change(&mut *c, &m, &leaf);
                                same(&observe(&*c), &e, "clone after changing it")?;
                                exactly(&x.m(), &m, "original after changing the clone")?;
                                let mut y = x.dup();
                                let c = cloner(&*y);
                                let e = change(y.rm(), &m, &leaf);
                                same(&y.m(), &e, "original after changing it")?;
                                exactly(&observe(&*c), &m, "clone after changing the original")?;
                                st.state(&(ty.name, &e, what));
                                st.tr(2);
                            }
                            // growing and shrinking
                            if let M::List(_) = m {
                                let mut c = cloner(&*x);
                                c.as_list_mut().unwrap().pop();
                                exactly(&x.m(), &m, "original after shrinking the clone")?;
                                let mut y = x.dup();
                                let c = cloner(&*y);
                                y.rm().as_list_mut().unwrap().pop();
                                exactly(&observe(&*c), &m, "clone after shrinking the original")?;
                                st.tr(2);
                            }
                            Ok(())
                        },
                    );
                }
            }
        });
    }
}

pub fn has_nan(m: &M) -> bool {
    match m {
        M::S(s) => !s.rust_eq(s),
        M::Map(e) => e.iter().any(|(k, v)| has_nan(k) || has_nan(v)),
        _ => m.children().into_iter().any(has_nan),
    }
}
