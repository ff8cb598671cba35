//! Values in skipped variants: they show which variant they are in, and nothing else.
use super::*;
use mirror_mirror::enum_::VariantKind;

#[derive(Reflect, Clone, Debug, PartialEq)]
pub enum Hide {
    #[reflect(skip)]
    U,
    A {
        a: u8,
    },
    #[reflect(skip)]
    T(u8, Hid),
    B(u8, String),
    #[reflect(skip)]
    S { a: u8, b: Hid },
    C,
    #[reflect(skip)]
    E {},
}

#[derive(Reflect)]
#[reflect(opt_out(Debug))]
#[derive(Clone, PartialEq)]
pub enum HideD {
    A(u8),
    #[reflect(skip)]
    T(u8, Hid),
    #[reflect(skip)]
    S { a: u8, b: Hid },
}

/// The value, the name of its variant and its kind.
fn hide() -> Vec<(Hide, &'static str, VariantKind)> {
    vec![
        (Hide::U, "U", VariantKind::Unit),
        (Hide::T(3, Hid(4)), "T", VariantKind::Tuple),
        (Hide::S { a: 5, b: Hid(6) }, "S", VariantKind::Struct),
        (Hide::E {}, "E", VariantKind::Struct),
    ]
}

fn hide_d() -> Vec<(HideD, &'static str, VariantKind)> {
    vec![
        (HideD::T(3, Hid(4)), "T", VariantKind::Tuple),
        (HideD::S { a: 5, b: Hid(6) }, "S", VariantKind::Struct),
    ]
}

/// `variants`: how many aren't skipped.
fn accesses(st: &mut Stats, r: &mut dyn Reflect, variants: usize, name: &str, kind: VariantKind) -> Result<(), String> {
    {
        let e = r.as_enum().ok_or("not an enum")?;
        ensure_eq!(e.variant_name(), name, "variant name");
        ensure_eq!(e.variant_kind(), kind, "variant kind");
        ensure_eq!(e.variants_len(), variants, "number of variants");
        ensure_eq!(e.fields_len(), 0, "number of fields");
        ensure_eq!(e.fields().count(), 0, "fields iterated");
        for i in past(0) {
            ensure!(e.field_at(i).is_none() && e.name_at(i).is_none(), "there is a field {i}");
        }
        for n in all_names() {
            ensure!(e.field(n).is_none(), "there is a field {n:?}");
        }
        st.tr(6);
    }
    let e = r.as_enum_mut().ok_or("not a mutable enum")?;
    ensure_eq!(e.fields_mut().count(), 0, "fields iterated mutably");
    for i in past(0) {
        ensure!(e.field_at_mut(i).is_none(), "there is a mutable field {i}");
    }
    for n in all_names() {
        ensure!(e.field_mut(n).is_none(), "there is a mutable field {n:?}");
    }
    st.tr(3);
    Ok(())
}

pub fn fields(ctx: &mut Ctx) {
    ctx.unit("skipped variants", |ctx| {
        for (x, name, kind) in hide() {
            ctx.case(
                || format!("{x:?}"),
                |st| {
                    st.state(&name);
                    let mut y = x.clone();
                    accesses(st, &mut y, 3, name, kind)?;
                    ensure_eq!(y, x, "the value afterwards");
                    let mut y: Box<dyn Reflect> = Box::new(Box::new(x.clone()));
                    accesses(st, &mut *y, 3, name, kind)?;
                    ensure!(y.downcast_ref::<Hide>() == Some(&x), "the boxed value afterwards");
                    Ok(())
                },
            );
        }
        for (x, name, kind) in hide_d() {
            ctx.case(|| format!("HideD::{name}"), |st| accesses(st, &mut x.clone(), 1, name, kind));
        }
    });
}

pub fn clones(ctx: &mut Ctx) {
    ctx.unit("skipped variants", |ctx| {
        for (x, name, _) in hide() {
            ctx.case(
                || format!("{x:?}"),
                |st| {
                    st.state(&name);
                    let boxed: Box<dyn Reflect> = Box::new(x.clone());
                    for c in [x.clone_reflect(), boxed.clone_reflect()] {
                        ensure!(c.downcast_ref::<Hide>() == Some(&x), "clone: got {:?}", c.downcast_ref::<Hide>());
                        st.tr(1);
                    }
                    Ok(())
                },
            );
        }
    });
}

pub fn debug(ctx: &mut Ctx) {
    ctx.unit("skipped variants", |ctx| {
        for (x, name, _) in hide() {
            ctx.case(
                || format!("{x:?}"),
                |st| {
                    st.state(&name);
                    let r: &dyn Reflect = &x;
                    ensure_eq!(format!("{r:?}"), format!("{x:?}"), "debug output");
                    ensure_eq!(format!("{r:#?}"), format!("{x:#?}"), "pretty debug output");
                    st.tr(2);
                    Ok(())
                },
            );
        }
        for (x, name, _) in hide_d() {
            ctx.case(
                || format!("HideD::{name}"),
                |st| {
                    let r: &dyn Reflect = &x;
                    ensure!(!format!("{r:?}").is_empty() && !format!("{r:#?}").is_empty(), "no debug output");
                    st.tr(2);
                    Ok(())
                },
            );
        }
    });
}
