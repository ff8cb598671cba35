use super::types::*;
use super::*;
use mirror_mirror::key_path::{GetTypePath, Key, KeyPath};
use mirror_mirror::type_info::*;

pub const CHECK: Check = Check {
    id: "C13",
    run,
    bounds: "every type of the universe and every part of it, variants included, down to depth 4 (thorough 8), through every way of asking; a list of types that hold themselves by value in their first variant",
    extra: None,
};

fn cmp(what: &str, has: bool, got: Option<Value>, expected: &Option<M>) -> Result<(), String> {
    ensure_eq!(has, expected.is_some(), "{what}: whether there is a default value");
    match (got, expected) {
        (None, None) => Ok(()),
        (Some(got), Some(expected)) => {
            same(&observe(&got), expected, what)?;
            ensure!(got == expected.to_value(), "{what}: value differs");
            Ok(())
        }
        (got, expected) => Err(format!("{what}: got {got:?}, expected {expected:?}")),
    }
}

fn variant(v: Variant<'_>, expected: &Option<M>) -> Result<(), String> {
    cmp("variant", v.has_default_value(), v.default_value(), expected)?;
    match v {
        Variant::Struct(v) => cmp("struct variant", v.has_default_value(), v.default_value(), expected),
        Variant::Tuple(v) => cmp("tuple variant", v.has_default_value(), v.default_value(), expected),
        Variant::Unit(v) => cmp("unit variant", v.has_default_value(), Some(v.default_value()), expected),
    }
}

pub fn inner(ty: Type<'_>, expected: &Option<M>) -> Result<(), String> {
    cmp("type", ty.has_default_value(), ty.default_value(), expected)?;
    match ty {
        Type::Struct(t) => cmp("struct", t.has_default_value(), t.default_value(), expected),
        Type::TupleStruct(t) => cmp("tuple struct", t.has_default_value(), t.default_value(), expected),
        Type::Tuple(t) => cmp("tuple", t.has_default_value(), t.default_value(), expected),
        Type::Enum(t) => cmp("enum", t.has_default_value(), t.default_value(), expected),
        Type::List(t) => cmp("list", t.has_default_value(), Some(t.default_value()), expected),
        Type::Array(t) => cmp("array", t.has_default_value(), t.default_value(), expected),
        Type::Map(t) => cmp("map", t.has_default_value(), Some(t.default_value()), expected),
        Type::Scalar(t) => cmp("scalar", t.has_default_value(), Some(t.default_value()), expected),
        Type::Opaque(t) => cmp("opaque", t.has_default_value(), t.default_value(), expected),
    }?;
    let d = ty.into_type_descriptor();
    cmp("descriptor", d.has_default_value(), d.default_value(), expected)?;
    let at = ty.type_at(&KeyPath::default()).ok_or("no type at the empty path")?;
    cmp("type at the empty path", at.has_default_value(), at.default_value(), expected)
}

fn run(ctx: &mut Ctx) {
    let depth = ctx.pick(4, 8);
    for ty in universe() {
        ctx.unit(ty.name, |ctx| {
            ctx.case(
                || "default values of the type and its parts".into(),
                |st| {
                    let d = (ty.desc)();
                    let t = (ty.t)();
                    each_node(d.get_type(), &t, depth, &mut |node, tn| {
                        match (node, tn) {
                            (Node::Type(p), TNode::T(pt)) => {
                                let e = default(&pt, 0);
                                inner(p, &e).map_err(|e| format!("{}: {e}", pt.type_name()))?;
                                st.tr(4);
                                st.state(&(pt.type_name(), e));
                            }
                            (Node::Variant(v), TNode::Variant(pt, vt)) => {
                                let e = default_variant(&vt, 0);
                                variant(v, &e).map_err(|e| format!("{}::{}: {e}", pt.type_name(), vt.name))?;
                                let kp: KeyPath = [Key::variant(vt.name)].into_iter().collect();
                                let at = v.enum_type().type_at(&kp).ok_or("no type at the variant")?;
                                cmp("type at the variant", at.has_default_value(), at.default_value(), &e)?;
                                st.tr(3);
                                st.state(&(pt.type_name(), vt.name, e));
                            }
                            _ => {}
                        }
                        Ok(())
                    })
                },
            );
            ctx.case(
                || "reading the default value back".into(),
                |st| {
                    let d = (ty.desc)();
                    let t = (ty.t)();
                    if let Some(v) = d.default_value() {
                        let e = default(&t, 0).ok_or("unexpected default")?;
                        let got = (ty.from)(&v).ok_or(format!("cannot be read back: {v:?}"))?;
                        let R::Yes(m) = conv(&t, &e) else { return Err("model: default does not fit".into()) };
                        same(&got.m(), &m, "read back")?;
                        // of values too
                        let vd = got.r().type_descriptor();
                        ensure!(vd.default_value() == Some(v), "default value of the type of the value");
                        st.tr(3);
                    }
                    Ok(())
                },
            );
        });
    }
    ctx.unit("types that hold themselves in their first variant", |ctx| {
        for p in ["REnumFirst", "RResult", "RStructFirst", "RMutFirst"] {
            ctx.case(
                || format!("default value of {p}"),
                |st| {
                    st.tr(1);
                    let out = std::process::Command::new(std::env::current_exe().unwrap())
                        .args(["--probe", "default", p])
                        .output()
                        .map_err(|e| e.to_string())?;
                    if out.status.success() {
                        Ok(())
                    } else if String::from_utf8_lossy(&out.stderr).contains("overflowed its stack") {
                        Err("overflows the stack".into())
                    } else {
                        Err(format!("{} {}", out.status, String::from_utf8_lossy(&out.stdout)))
                    }
                },
            );
        }
    });
}

mod rec {
    use mirror_mirror::Reflect;
    #[derive(Reflect, Clone, Debug)]
    pub enum REnumFirst {
        A(Box<REnumFirst>),
        B,
    }
    #[derive(Reflect, Clone, Debug)]
    pub struct RResult {
        pub a: Result<Box<RResult>, u8>,
    }
    #[derive(Reflect, Clone, Debug)]
    pub enum RStructFirst {
        A { x: u8, next: Box<RStructFirst> },
        B(u8),
    }
    #[derive(Reflect, Clone, Debug)]
    pub enum RMutFirst {
        A(Box<RMutSecond>),
        B,
    }
    #[derive(Reflect, Clone, Debug)]
    pub struct RMutSecond(pub u8, pub RMutFirst);
}

fn consistent<X: DescribeType + FromReflect>() {
    let d = <X as DescribeType>::type_descriptor();
    let has = d.has_default_value();
    let v = d.default_value();
    let ok = has == v.is_some() && v.as_ref().map_or(true, |v| X::from_reflect(v).is_some());
    if !ok {
        println!("has a default value: {has}, default value: {v:?}");
        std::process::exit(1);
    }
}

pub fn probe(name: &str) {
    match name {
        "REnumFirst" => consistent::<rec::REnumFirst>(),
        "RResult" => consistent::<rec::RResult>(),
        "RStructFirst" => consistent::<rec::RStructFirst>(),
        "RMutFirst" => consistent::<rec::RMutFirst>(),
        _ => panic!("no such type"),
    }
}
