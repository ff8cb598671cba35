use super::*;

pub const CHECK: Check = Check {
    id: "C24",
    run,
    bounds: "every type of the universe, up to 40 (thorough 4000) values of each nested up to 3 (5) deep, and long (33 and 257 parts) and deep (33 levels) ones, printed plain and pretty as a reflected value, as every kind of view, in boxes and inside of a list and an option",
    extra: None,
};

/// Prints a value in all the ways there are.
fn all_ways(r: &dyn Reflect) -> Vec<(&'static str, String, String)> {
    let mut out = vec![];
    macro_rules! way {
        ($what:expr, $e:expr) => {
            out.push(($what, format!("{:?}", $e), format!("{:#?}", $e)))
        };
    }
    way!("dyn Reflect", r);
    way!("as_reflect", r.as_reflect());
    struct D<'a>(&'a dyn Reflect);
    impl std::fmt::Debug for D<'_> {
        fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
            self.0.debug(f)
        }
    }
    way!("Reflect::debug", D(r));
    match r.reflect_ref() {
        ReflectRef::Struct(v) => way!("dyn Struct", v),
        ReflectRef::TupleStruct(v) => way!("dyn TupleStruct", v),
        ReflectRef::Tuple(v) => way!("dyn Tuple", v),
        ReflectRef::Enum(v) => way!("dyn Enum", v),
        ReflectRef::List(v) => {
            way!("dyn List", v);
        }
        ReflectRef::Array(v) => way!("dyn Array", v),
        ReflectRef::Map(v) => way!("dyn Map", v),
        ReflectRef::Opaque(v) => way!("opaque", v),
        ReflectRef::Scalar(_) => {}
    }
    out
}

fn run(ctx: &mut Ctx) {
    super::skipped::debug(ctx);
    let (n, d) = (ctx.pick(40, 4000), ctx.pick(3, 5));
    for ty in universe() {
        ctx.unit(ty.name, |ctx| {
            for x in ty.all(n, d) {
                ctx.case(
                    || format!("{:?}", x.m()),
                    |st| {
                        let top = x.dbg();
                        let inner = x.dbg_view();
                        st.state(&(ty.name, &top));
                        let check = |r: &dyn Reflect, view: bool, how: &str, st: &mut Stats| -> Result<(), String> {
                            for (what, a, b) in all_ways(r) {
                                let direct = !view && (what == "dyn Reflect" || what == "Reflect::debug");
                                let expected = if direct { &top } else { &inner };
                                ensure!(expected.contains(&(a.clone(), b.clone())), "{what}, {how}: got {:?}, expected {expected:?}", (a, b));
                                st.tr(2);
                            }
                            Ok(())
                        };
                        check(x.r(), false, "the value", st)?;
                        check(&*x.boxed(), false, "boxed", st)?;
                        check(&*x.boxed_boxed(), false, "in a box", st)?;
                        let mut y = x.dup();
                        check(y.rm().as_reflect_mut(), true, "through mutable access", st)?;
                        // printing inside other values
                        let plain = format!("{:?}", x.r());
                        let l = [x.r(), x.r()];
                        ensure_eq!(format!("{:?}", l), format!("[{plain}, {plain}]"), "in a list");
                        ensure_eq!(format!("{:?}", Some(x.r())), format!("Some({plain})"), "in an option");
                        st.tr(3);
                        Ok(())
                    },
                );
            }
        });
    }
}
