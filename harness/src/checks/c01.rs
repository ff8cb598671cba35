use super::*;

pub const CHECK: Check = Check {
    id: "C01",
    run,
    bounds: "every type of the universe, up to 12 (thorough 1500) values of each nested up to 3 (5) deep, and long (33 and 257 parts) and deep (33 levels) ones",
    extra: None,
};

fn run(ctx: &mut Ctx) {
    let (n, d) = (ctx.pick(12, 1500), ctx.pick(3, 5));
    for ty in universe() {
        ctx.unit(ty.name, |ctx| {
            for x in ty.all(n, d) {
                ctx.case(
                    || format!("{:?}", x.m()),
                    |st| {
                        let m = x.m();
                        let erased = m.erased();
                        let shown = m.rounded();
                        st.state(&(ty.name, &m.canon()));
                        let value = x.r().to_value();
                        same(&value.m(), &erased, "type erased value")?;
                        same(&observe(&value), &erased, "content shown by the type erased value")?;
                        same(&x.m(), &m, "value after to_value")?;
                        if let Some(v) = x.into_value() {
                            same(&v.m(), &erased, "type erased value by conversion")?;
                        }
                        st.tr(2);
                        for (what, src) in [("to_value", &value as &dyn Reflect), ("value", x.r())] {
                            let Some(back) = (ty.from)(src) else {
                                return Err(format!("{what} could not be read back"));
                            };
                            same(&back.m().rounded(), &shown, &format!("read back from {what}"))?;
                            ensure!(
                                back.hidden().iter().all(|h| *h == 100),
                                "skipped fields are {:?} after reading back from {what}, expected the default",
                                back.hidden()
                            );
                            // and again
                            let value2 = back.r().to_value();
                            same(&value2.m(), &erased, "type erased value of what was read back")?;
                            ensure!(
                                value2 == value,
                                "type erased values of the value and its copy differ: {value2:?} and {value:?}"
                            );
                            st.tr(2);
                        }
                        // boxes
                        for b in [x.boxed(), x.boxed_boxed()] {
                            same(&b.to_value().m(), &erased, "type erased value of a box")?;
                            let Some(back) = (ty.from)(&*b) else {
                                return Err("could not be read back from a box".into());
                            };
                            same(&back.m().rounded(), &shown, "read back from a box")?;
                            st.tr(2);
                        }
                        // a type erased value that was not made by to_value
                        let own = m.to_value();
                        let Some(back) = (ty.from)(&own) else {
                            return Err("could not be read from a type erased value built by hand".into());
                        };
                        same(&back.m().rounded(), &shown, "read from a type erased value built by hand")?;
                        st.tr(1);
                        Ok(())
                    },
                );
            }
        });
    }
}
