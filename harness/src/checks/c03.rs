use super::*;

pub const CHECK: Check = Check {
    id: "C03",
    run,
    bounds: "every type of the universe: all pairs of up to 7 (thorough 50) values, typed, boxed and type erased, among them long and deeply nested ones; every scalar value of every scalar type as patch for every scalar; all one-place perturbations of up to 3 (20) values; 1 (9) values of every other type of a fixed list; all pairs of a family of type erased values (structs and struct variants with all selections of three fields in all orders; tuples, tuple structs, lists, maps and tuple variants of up to five parts)",
    extra: None,
};

/// Whether no list or map in `a` differs in length or keys from the corresponding one in `b`.
fn same_shape(a: &M, b: &M) -> bool {
    match (a, b) {
        (M::List(x), M::List(y)) if x.len() != y.len() => false,
        (M::Map(x), M::Map(y)) => {
            x.len() == y.len()
                && x.iter().all(|(k, v)| {
                    y.iter().any(|(l, w)| k.value_eq(l) && same_shape(v, w))
                })
        }
        (M::Enum(n, ..), M::Enum(o, ..)) if n != o => true,
        (M::Enum(_, k, f), M::Enum(_, l, g)) => {
            k == l && f.len() == g.len() && f.iter().zip(g).all(|(f, g)| f.0 == g.0 && same_shape(&f.1, &g.1))
        }
        _ => {
            let (x, y) = (a.children(), b.children());
            x.len() == y.len() && x.iter().zip(y).all(|(a, b)| same_shape(a, b))
        }
    }
}

fn keeps_hidden(t: &T) -> bool {
    matches!(t, T::Struct { .. } | T::TupleStruct { .. })
}

/// Patch a copy of `x` with `src` and compare.
fn check(
    st: &mut Stats,
    ty: &TyInfo,
    x: &dyn Obj,
    src: &dyn Reflect,
    src_m: &M,
) -> Result<(), String> {
    let t = (ty.t)();
    let m = x.m();
    let mut y = x.dup();
    y.rm().patch(src);
    st.tr(1);
    same(&observe(src), src_m, "the patch itself after patching")?;
    let got = y.m();
    st.state(&(ty.name, &got.canon()));
    let expected = patch(&t, &m, src_m);
    if let Some(expected) = &expected {
        same(&got, expected, "after patching")?;
    }
    same(&observe(y.r()), &got, "reflected after patching")?;
    if keeps_hidden(&t) {
        ensure_eq!(y.hidden(), x.hidden(), "skipped fields after patching");
    }
    // twice is the same as once
    y.rm().patch(src);
    st.tr(1);
    if expected.is_some() {
        same(&y.m(), &got, "after patching twice")?;
    }
    // through a box
    let mut b = x.boxed();
    b.patch(src);
    st.tr(1);
    if expected.is_some() {
        same(&observe(&*b), &got, "box after patching")?;
    }
    Ok(())
}

/// Values of kinds that most types are not.
pub fn foreign() -> Vec<M> {
    let i = |n| M::S(S::I32(n));
    let s = |v: &str| M::S(S::Str(v.into()));
    let mut out = small_erased();
    out.extend(ALL_K.iter().map(|k| M::S(k.zero())));
    out.extend([
        st(&[("a", i(4)), ("b", s("n")), ("c", M::S(S::U8(4))), ("x", i(5)), ("y", s("q"))]),
        M::Tuple(vec![i(4), s("n"), i(5), s("m")]),
        M::TupleStruct(vec![i(4), s("n"), i(5), s("m")]),
        M::List(vec![i(4), i(5), i(6), i(7)]),
        M::List(vec![s("n"), i(5)]),
        map(vec![(s("a"), i(4)), (i(1), s("n"))]),
        en("A", VK::Tuple, &[("", i(4))]),
        en("A", VK::Struct, &[("a", i(4)), ("x", i(6))]),
        en("B", VK::Unit, &[]),
        en("B", VK::Struct, &[("x", i(4)), ("y", s("n"))]),
        en("C", VK::Tuple, &[("", i(4)), ("", s("n"))]),
        en("Some", VK::Tuple, &[("", i(4))]),
        en("Ok", VK::Tuple, &[("", i(4))]),
        en("None", VK::Unit, &[]),
        en("Nope", VK::Unit, &[]),
    ]);
    out
}

/// Every value of every scalar type.
pub fn all_scalars() -> Vec<M> {
    universe().iter().filter(|ty| matches!((ty.t)(), T::S(_))).flat_map(|ty| (ty.vals)(1000, 1)).map(|x| x.m()).collect()
}

fn run(ctx: &mut Ctx) {
    let scalars = all_scalars();
    let (n, d) = (ctx.pick(7, 50), ctx.pick(3, 4));
    let np = ctx.pick(3, 20);
    let foreign = valid_erased(foreign());
    for ty in universe() {
        ctx.unit(ty.name, |ctx| {
            let vals = ty.all(n, d);
            // values of the same type
            for x in &vals {
                for y in &vals {
                    ctx.case(
                        || format!("{:?} patched with {:?}", x.m(), y.m()),
                        |st| {
                            let ym = y.m();
                            check(st, &ty, &**x, y.r(), &ym)?;
                            let v = ym.to_value();
                            check(st, &ty, &**x, &v, &ym.erased())?;
                            check(st, &ty, &**x, &*y.boxed_boxed(), &ym)?;
                            if same_shape(&x.m(), &ym) {
                                let mut z = x.dup();
                                z.rm().patch(y.r());
                                if !contains_dyn_mismatch(&x.m(), &ym) {
                                    same(&z.m(), &ym, "patched with a value of the same type and shape")?;
                                }
                            }
                            Ok(())
                        },
                    );
                }
            }
            // values that are a bit different
            for (i, x) in vals.iter().enumerate().take(np) {
                let base = &vals[(i + 1) % vals.len()];
                for b in valid_erased(perturb(&base.m())) {
                    ctx.case(
                        || format!("{:?} patched with {:?}", x.m(), b),
                        |st| check(st, &ty, &**x, &b.to_value(), &b),
                    );
                }
            }
            // all there is for a scalar
            if matches!((ty.t)(), T::S(_) | T::Via(_)) {
                for x in (ty.vals)(1000, 1) {
                    for b in &scalars {
                        ctx.case(
                            || format!("{:?} patched with {:?}", x.m(), b),
                            |st| check(st, &ty, &*x, &b.to_value(), b),
                        );
                    }
                }
            }
            // values that are very different
            for x in vals.iter().take(ctx.pick(1, 9)) {
                for b in &foreign {
                    ctx.case(
                        || format!("{:?} patched with {:?}", x.m(), b),
                        |st| check(st, &ty, &**x, &b.to_value(), b),
                    );
                }
            }
        });
    }
    // type erased values
    let family = valid_erased(small_erased().into_iter().chain(erased_family()).collect());
    for ty in universe().into_iter().filter(|ty| matches!((ty.t)(), T::Dyn(_))) {
        for (i, x) in (ty.vals)(1000, 4).iter().enumerate() {
            ctx.unit(&format!("{} {i}", ty.name), |ctx| {
                for b in &family {
                    ctx.case(
                        || format!("{:?} patched with {:?}", x.m(), b),
                        |st| check(st, &ty, &**x, &b.to_value(), b),
                    );
                }
            });
        }
    }
    // real values of other types
    let reps: Vec<_> = universe()
        .into_iter()
        .filter_map(|ty| (ty.vals)(2, 2).pop().map(|v| (ty, v)))
        .collect();
    let step = ctx.pick(7, 1);
    for (i, (ty, x)) in reps.iter().enumerate() {
        ctx.unit(&format!("{} and other types", ty.name), |ctx| {
            for (other, y) in reps.iter().skip(i % step).step_by(step) {
                ctx.case(
                    || format!("{:?} patched with {} {:?}", x.m(), other.name, y.m()),
                    |st| check(st, ty, &**x, y.r(), &y.m()),
                );
            }
        });
    }
}

/// A type erased value that differs in kind or scalar type isn't overwritten.
fn contains_dyn_mismatch(a: &M, b: &M) -> bool {
    match (a, b) {
        (M::S(x), M::S(y)) => x.k() != y.k(),
        (M::Enum(n, k, _), M::Enum(o, l, _)) if n != o || k != l => false,
        _ => {
            a.kind() != b.kind()
                || a.children()
                    .iter()
                    .zip(b.children())
                    .any(|(a, b)| contains_dyn_mismatch(a, b))
                || matches!((a, b), (M::Struct(x), M::Struct(y)) if x.iter().map(|f| &f.0).ne(y.iter().map(|f| &f.0)))
        }
    }
}
