use super::*;
use std::collections::BTreeMap;

pub const CHECK: Check = Check {
    id: "C08",
    run,
    bounds: "all pairs of values of the same type (up to 8 (thorough 100) values), their type erased forms and one-place perturbations of up to 3 (30); values of 257 parts differing in any one of them; all pairs of up to 1 (9) values of different types of the universe and a fixed list of type erased values, both ways round; all pairs of the family of type erased values of C03",
    extra: None,
};

fn check(st: &mut Stats, a: &dyn Reflect, am: &M, b: &dyn Reflect, bm: &M) -> Result<(), String> {
    let expected = eq(am, bm);
    let got = reflect_eq(a, b);
    let back = reflect_eq(b, a);
    st.tr(2);
    st.state(&(am, bm, expected));
    let opaque = am.has_opaque() || bm.has_opaque();
    for got in [got, back] {
        if expected == Some(false) && opaque {
            ensure!(got != Some(true), "equal, expected different or unknown");
        } else {
            ensure_eq!(got, expected, "equality");
        }
    }
    if expected != Some(false) || !opaque {
        ensure_eq!(got, back, "equality the other way round");
    }
    ensure_eq!(a == b, got == Some(true), "==");
    Ok(())
}

fn run(ctx: &mut Ctx) {
    let (n, d) = (ctx.pick(8, 100), ctx.pick(3, 4));
    // keys that reflection shows only a part of
    let keyed = [
        ty::<BTreeMap<crate::types_gen::S2m1, u8>>(),
        ty::<BTreeMap<crate::types_gen::T2m2, String>>(),
        ty::<BTreeMap<crate::types_gen::E3m2, u8>>(),
        ty::<BTreeMap<Vec<crate::types_gen::S2m1>, Value>>(),
    ];
    for ty in universe().into_iter().chain(keyed) {
        ctx.unit(ty.name, |ctx| {
            let vals = ty.all(n, d);
            for (i, x) in vals.iter().enumerate() {
                for y in &vals[i..] {
                    ctx.case(
                        || format!("{:?} and {:?}", x.m(), y.m()),
                        |st| {
                            let (a, b) = (x.m(), y.m());
                            check(st, x.r(), &a, y.r(), &b)?;
                            check(st, &*x.boxed_boxed(), &a, y.r(), &b)?;
                            check(st, x.r(), &a, &b.to_value(), &b.erased())?;
                            check(st, &a.to_value(), &a.erased(), &b.to_value(), &b.erased())
                        },
                    );
                }
                ctx.case(
                    || format!("{:?} and its clone", x.m()),
                    |st| check(st, x.r(), &x.m(), &*x.r().clone_reflect(), &x.m()),
                );
            }
            // long values that differ in one place
            for x in vals.iter().filter(|x| x.m().children().len() > 100) {
                let m = x.m();
                for i in 0..m.children().len() {
                    ctx.case(
                        || format!("long value {i}"),
                        |st| {
                            let mut other = m.clone();
                            match &mut other {
                                M::List(parts) | M::Array(parts) => {
                                    let next = (i + 1) % parts.len();
                                    parts[i] = parts[next].clone();
                                }
                                M::Map(entries) => {
                                    let next = (i + 1) % entries.len();
                                    entries[i].1 = entries[next].1.clone();
                                }
                                _ => return Ok(()),
                            }
                            check(st, x.r(), &m, &other.to_value(), &other.erased())?;
                            check(st, &m.to_value(), &m.erased(), &other.to_value(), &other.erased())
                        },
                    );
                }
            }
            for x in vals.iter().take(ctx.pick(3, 30)) {
                for p in valid_erased(perturb(&x.m())) {
                    ctx.case(
                        || format!("{:?} and {p:?}", x.m()),
                        |st| {
                            let a = x.m();
                            check(st, x.r(), &a, &p.to_value(), &p)?;
                            check(st, &a.to_value(), &a.erased(), &p.to_value(), &p)
                        },
                    );
                }
            }
        });
    }
    let family = valid_erased(small_erased().into_iter().chain(erased_family()).collect());
    for (i, a) in family.iter().enumerate() {
        ctx.unit(&format!("type erased {i}"), |ctx| {
            for b in &family[..=i] {
                ctx.case(|| format!("{a:?} and {b:?}"), |st| check(st, &a.to_value(), a, &b.to_value(), b));
            }
            for b in valid_erased(perturb(a)) {
                ctx.case(|| format!("{a:?} and {b:?}"), |st| check(st, &a.to_value(), a, &b.to_value(), &b));
            }
        });
    }
    let per = ctx.pick(1, 9);
    let mut reps: Vec<Box<dyn Obj>> = universe().into_iter().flat_map(|ty| (ty.vals)(per, 2)).collect();
    reps.extend(
        valid_erased(super::c03::foreign())
            .into_iter()
            .map(|m| Box::new(O(m.to_value())) as Box<dyn Obj>),
    );
    for (i, x) in reps.iter().enumerate() {
        ctx.unit(&format!("{:?} and others", x.m()), |ctx| {
            for y in &reps[..=i] {
                ctx.case(
                    || format!("{:?} and {:?}", x.m(), y.m()),
                    |st| check(st, x.r(), &x.m(), y.r(), &y.m()),
                );
            }
        });
    }
}
