use super::types::*;
use super::*;
use mirror_mirror::type_info::*;

pub const CHECK: Check = Check {
    id: "C07",
    run,
    bounds: "every type of the universe, recursive and same-named types included: the whole description down to depth 5 (thorough 8) through every accessor, the descriptors of all parts down to depth 3 (5)",
    extra: None,
};

fn run(ctx: &mut Ctx) {
    let depth = ctx.pick(5, 8);
    let part_depth = ctx.pick(3, 5);
    for ty in universe() {
        ctx.unit(ty.name, |ctx| {
            ctx.case(
                || "description".into(),
                |st| {
                    let t = (ty.t)();
                    let d = (ty.desc)();
                    let mut n = 0;
                    cmp_type(&mut n, d.get_type(), &t, depth)?;
                    ensure_eq!(d.type_name(), t.type_name(), "type name of the descriptor");
                    let views = [
                        ("Struct", d.as_struct().is_some()),
                        ("TupleStruct", d.as_tuple_struct().is_some()),
                        ("Tuple", d.as_tuple().is_some()),
                        ("Enum", d.as_enum().is_some()),
                        ("List", d.as_list().is_some()),
                        ("Array", d.as_array().is_some()),
                        ("Map", d.as_map().is_some()),
                        ("Scalar", d.as_scalar().is_some()),
                        ("Opaque", d.as_opaque().is_some()),
                    ];
                    for (k, there) in views {
                        ensure_eq!(there, k == t.kind(), "descriptor as {k}");
                    }
                    // asking again gives the same
                    ensure!(*(ty.desc)() == *d, "the second descriptor differs");
                    st.state(ty.name);
                    st.tr(n);
                    Ok(())
                },
            );
            ctx.case(
                || "descriptors of parts".into(),
                |st| {
                    let t = (ty.t)();
                    let d = (ty.desc)();
                    each_node(d.get_type(), &t, part_depth, &mut |node, tn| {
                        if let (Node::Type(p), TNode::T(pt)) = (node, tn) {
                            let own = own_descriptor(p);
                            let mut n = 0;
                            cmp_type(&mut n, own.get_type(), &pt, 3)
                                .map_err(|e| format!("descriptor of part {}: {e}", pt.type_name()))?;
                            // and of a part of that
                            let again = own.get_type().into_type_descriptor();
                            cmp_type(&mut n, again.get_type(), &pt, 1)?;
                            let other = match p {
                                Type::Struct(p) => Some(p.into_type_descriptor()),
                                Type::TupleStruct(p) => Some(p.into_type_descriptor()),
                                Type::Tuple(p) => Some(p.into_type_descriptor()),
                                Type::Enum(p) => Some(p.into_type_descriptor()),
                                Type::List(p) => Some(p.into_type_descriptor()),
                                Type::Array(p) => Some(p.into_type_descriptor()),
                                Type::Map(p) => Some(p.into_type_descriptor()),
                                Type::Opaque(p) => Some(p.into_type_descriptor()),
                                Type::Scalar(_) => None,
                            };
                            if let Some(other) = other {
                                cmp_type(&mut n, other.get_type(), &pt, 2)?;
                            }
                            st.tr(n);
                            st.state(pt.type_name());
                        }
                        Ok(())
                    })
                },
            );
            // values describe themselves as their type
            for x in (ty.vals)(3, 2) {
                ctx.case(
                    || format!("descriptor of the value {:?}", x.m()),
                    |st| {
                        let mut n = 0;
                        let d = x.r().type_descriptor();
                        cmp_type(&mut n, d.get_type(), &(ty.t)(), 3)?;
                        let b = x.boxed_boxed();
                        cmp_type(&mut n, b.type_descriptor().get_type(), &(ty.t)(), 3)?;
                        parts_describe_themselves(&mut n, x.r(), &(ty.t)(), &x.m())?;
                        st.tr(n);
                        Ok(())
                    },
                );
            }
        });
    }
    // different types have different descriptors
    ctx.unit("all pairs of types", |ctx| {
        let tys = universe();
        for a in &tys {
            ctx.case(
                || format!("descriptors equal to that of {}", a.name),
                |st| {
                    for b in &tys {
                        let same_type = a.id == b.id || (a.t)().type_name() == (b.t)().type_name();
                        if !same_type {
                            ensure!(*(a.desc)() != *(b.desc)(), "same descriptor as {}", b.name);
                            st.tr(1);
                        }
                    }
                    Ok(())
                },
            );
        }
    });
}

fn parts_describe_themselves(n: &mut usize, r: &dyn Reflect, t: &T, m: &M) -> Result<(), String> {
    if matches!(t, T::Dyn(_)) {
        return Ok(());
    }
    for i in 0..m.children().len() {
        let c = child(r, i).ok_or("missing part")?;
        let ct = t.child_type(m, i);
        // parts of type erased parts describe what they hold
        if !matches!(ct, T::Dyn(_)) {
            cmp_type(n, c.type_descriptor().get_type(), &ct, 2)?;
            parts_describe_themselves(n, c, &ct, m.children()[i])?;
        }
    }
    Ok(())
}
