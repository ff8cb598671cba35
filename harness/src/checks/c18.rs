use super::*;

pub const CHECK: Check = Check {
    id: "C18",
    run,
    bounds: "every type of the universe read from: one-place perturbations of up to 4 (thorough 60) of its values, a fixed list of values of all kinds (for scalars all scalar values of the universe), and values of every other type of the universe, typed and type erased",
    extra: None,
};

fn check(st: &mut Stats, ty: &TyInfo, src: &dyn Reflect, src_m: &M) -> Result<(), String> {
    let t = (ty.t)();
    let got = (ty.from)(src);
    st.tr(1);
    same(&observe(src), src_m, "the source after reading")?;
    match (conv(&t, src_m), got) {
        (R::Unspec, _) => {}
        (R::No, None) => {
            st.state(&(ty.name, "no"));
        }
        (R::No, Some(got)) => return Err(format!("read as {:?}, expected nothing", got.m())),
        (R::Yes(m), None) => return Err(format!("could not be read, expected {m:?}")),
        (R::Yes(m), Some(got)) => {
            same(&got.m(), &m, "read")?;
            ensure!(
                got.hidden().iter().all(|h| *h == 100),
                "skipped fields read as {:?}, expected the default",
                got.hidden()
            );
            st.state(&(ty.name, m.canon()));
        }
    }
    Ok(())
}

fn run(ctx: &mut Ctx) {
    let (n, d) = (ctx.pick(4, 60), ctx.pick(3, 4));
    let foreign = valid_erased(super::c03::foreign());
    let scalars = super::c03::all_scalars();
    for ty in universe() {
        ctx.unit(ty.name, |ctx| {
            for x in ty.all(n, d) {
                for b in valid_erased(perturb(&x.m())) {
                    ctx.case(
                        || format!("from {b:?}"),
                        |st| check(st, &ty, &b.to_value(), &b),
                    );
                }
            }
            let scalars = if matches!((ty.t)(), T::S(_) | T::Via(_)) { &scalars[..] } else { &[] };
            for b in foreign.iter().chain(scalars) {
                ctx.case(
                    || format!("from {b:?}"),
                    |st| check(st, &ty, &b.to_value(), b),
                );
            }
        });
    }
    // real values of other types
    let step = ctx.pick(2, 1);
    let reps: Vec<_> = universe()
        .into_iter()
        .flat_map(|ty| (ty.vals)(2, 2).into_iter().map(move |v| (ty.name, v)))
        .collect();
    for (i, ty) in universe().into_iter().enumerate() {
        ctx.unit(&format!("{} from other types", ty.name), |ctx| {
            for (name, y) in reps.iter().skip(i % step).step_by(step) {
                ctx.case(
                    || format!("from {name} {:?}", y.m()),
                    |st| {
                        let m = y.m();
                        check(st, &ty, y.r(), &m)?;
                        check(st, &ty, &*y.boxed_boxed(), &m)
                    },
                );
            }
        });
    }
}
