use super::*;
#[cfg(feature = "std")]
use mirror_mirror::type_info::SimpleTypeName;
use mirror_mirror::type_info::{PrettyPrintRoot, Type};
use std::fmt::Write;

pub const CHECK: Check = Check {
    id: "C19",
    run,
    bounds: "names: all type expressions nested up to 2 (thorough 3) deep out of 17 (24) kinds of leaves (supported and not) and 13 kinds of types around them, the names of all types of the universe and their parts, and of 30 types that don't reflect; pretty printing: every type of the universe and its parts down to 3 (5) levels, through every handle of the type, to a writer that fails after any number of bytes",
    extra: None,
};

/// A full name, and its simple one if it's supported.
#[derive(Clone, Debug)]
struct Name {
    full: String,
    simple: Option<String>,
}

fn leaf(full: &str, simple: &str) -> Name {
    Name { full: full.into(), simple: Some(simple.into()) }
}

fn bad(full: &str) -> Name {
    Name { full: full.into(), simple: None }
}

fn leaves(thorough: bool) -> Vec<Name> {
    let mut out = vec![
        leaf("i32", "i32"),
        leaf("alloc::string::String", "String"),
        leaf("()", "()"),
        leaf("a::_::B", "B"),
        leaf("a::_::_::_::C_", "C_"),
        leaf("a_::_b::__::_D", "_D"),
        leaf("a::_::b::_::E", "E"),
        leaf("F", "F"),
        leaf("a::b::c::d::r#type::G", "G"),
        leaf("a::_H", "_H"),
        leaf("a::_::_I", "_I"),
        leaf("a::J__", "J__"),
        bad("fn() -> a::B"),
        bad("dyn a::T"),
        bad("*const a::B"),
        bad("[a::B]"),
        bad("a::b::{{closure}}::C"),
    ];
    if thorough {
        out.extend([
            leaf("a::r#K", "r#K"),
            leaf("str", "str"),
            leaf("bool", "bool"),
            leaf("a_::_::_b::_::L", "L"),
            bad("!"),
            bad("<a::B as c::D>::E"),
            bad("a::Fn(i32)"),
        ]);
    }
    out
}

fn compose(parts: &[&Name], full: impl Fn(&[&str]) -> String, simple: impl Fn(&[&str]) -> String) -> Name {
    let f: Vec<&str> = parts.iter().map(|p| &*p.full).collect();
    let s: Option<Vec<&str>> = parts.iter().map(|p| p.simple.as_deref()).collect();
    Name { full: full(&f), simple: s.map(|s| simple(&s)) }
}

fn around(x: &Name) -> Vec<Name> {
    let one = |f: &'static str, s: &'static str| {
        compose(&[x], |p| f.replace('$', p[0]), |p| s.replace('$', p[0]))
    };
    vec![
        one("alloc::vec::Vec<$>", "Vec<$>"),
        one("[$; 3]", "[$; 3]"),
        one("($,)", "($,)"),
        one("&$", "&$"),
        one("&mut $", "&mut $"),
        one("a::_::W<'_, $>", "W<$>"),
        one("a::b::X<$, 7>", "X<$, 7>"),
        one("a::b::Y<true, $>", "Y<true, $>"),
        one("($, a::Z<'_>)", "($, Z)"),
        one("a::X<$, -1>", "X<$, -1>"),
        compose(&[&bad("a::X<'c'>"), x], |p| format!("({}, {})", p[0], p[1]), |_| unreachable!()),
    ]
}

fn pair(x: &Name, y: &Name) -> Vec<Name> {
    let two = |f: &'static str, s: &'static str| {
        // (split, because `#` may be in a raw name)
        let fill = |t: &str, p: &[&str]| t.split('#').map(|t| t.replace('$', p[0])).collect::<Vec<_>>().join(p[1]);
        compose(&[x, y], |p| fill(f, p), |p| fill(s, p))
    };
    vec![two("alloc::collections::btree::map::BTreeMap<$, #>", "BTreeMap<$, #>"), two("($, #)", "($, #)")]
}

#[cfg(feature = "std")]
/// `None` if it isn't supported.
fn simple(name: &str) -> Option<String> {
    let mut out = String::new();
    write!(out, "{}", SimpleTypeName::new(name)?).ok()?;
    Some(out)
}

/// What the simple name of a type that exists should be.
fn strip(name: &str) -> String {
    let name = &name.replace("'_, ", "").replace("<'_>", "");
    let mut out = String::new();
    let mut word = String::new();
    let mut chars = name.chars().peekable();
    while let Some(c) = chars.next() {
        if c.is_alphanumeric() || c == '_' {
            word.push(c);
        } else if c == ':' && chars.peek() == Some(&':') {
            chars.next();
            word.clear();
        } else {
            out += &word;
            word.clear();
            out.push(c);
        }
    }
    out + &word
}

/// What's shown of a name.
fn shown(name: &str) -> String {
    if cfg!(feature = "std") {
        strip(name)
    } else {
        name.to_owned()
    }
}

/// What pretty printing the type should give.
fn pretty(t: &T) -> String {
    let name = |t: &Ty| shown(t().type_name());
    let unnamed = |fields: &[FieldT]| fields.iter().map(|f| name(&f.ty)).collect::<Vec<_>>().join(", ");
    let named = |fields: &[FieldT], ind: &str| {
        if fields.is_empty() {
            return "{}".to_owned();
        }
        let lines: String = fields.iter().map(|f| format!("{ind}    {}: {},\n", f.name.unwrap(), name(&f.ty))).collect();
        format!("{{\n{lines}{ind}}}")
    };
    match t {
        T::S(_) => strip(t.type_name()),
        T::Via(_) | T::Opaque { .. } | T::Dyn(_) => shown(t.type_name()),
        T::Struct { name, fields, .. } => format!("struct {} {}", shown(name), named(fields, "")),
        T::TupleStruct { name, fields, .. } => format!("struct {}({})", shown(name), unnamed(fields)),
        T::Tuple { elems, .. } if elems.len() == 1 => format!("({},)", name(&elems[0])),
        T::Tuple { elems, .. } => format!("({})", elems.iter().map(name).collect::<Vec<_>>().join(", ")),
        T::List { elem, .. } => format!("[{}]", name(elem)),
        T::Array { elem, len, .. } => format!("[{}; {len}]", name(elem)),
        T::Map { key, value, .. } => format!("[{}: {}]", name(key), name(value)),
        T::Enum { name, variants, .. } if variants.is_empty() => format!("enum {} {{}}", shown(name)),
        T::Enum { name, variants, .. } => {
            let lines: String = variants
                .iter()
                .map(|v| match v.kind {
                    VK::Struct => format!("    {} {},\n", v.name, named(&v.fields, "    ")),
                    VK::Tuple => format!("    {}({}),\n", v.name, unnamed(&v.fields)),
                    VK::Unit => format!("    {},\n", v.name),
                })
                .collect();
            format!("enum {} {{\n{lines}}}", shown(name))
        }
    }
}

/// Takes so many bytes, then fails.
struct Limited(String, usize);

impl Write for Limited {
    fn write_str(&mut self, s: &str) -> std::fmt::Result {
        if self.0.len() + s.len() > self.1 {
            return Err(std::fmt::Error);
        }
        self.0 += s;
        Ok(())
    }
}

fn prints<P: PrettyPrintRoot>(p: &P, expected: &str, what: &str, st: &mut Stats) -> Result<(), String> {
    let mut got = String::new();
    write!(got, "{}", p.pretty_print_root()).map_err(|_| format!("pretty printing {what} fails"))?;
    ensure_eq!(got, expected, "pretty printed {what}");
    // however it's asked for
    let p = p.pretty_print_root();
    for (got, options) in [
        (p.to_string(), "to_string"),
        (format!("{p:#}"), "#"),
        (format!("{p:3}"), "width"),
        (format!("{p:>+08}"), "fill, align and sign"),
        (format!("{p:.1}"), "precision"),
    ] {
        ensure_eq!(got, expected, "pretty printed {what}, formatted with {options}");
    }
    st.tr(6);
    Ok(())
}

fn prints_limited<P: PrettyPrintRoot>(p: &P, expected: &str, what: &str, st: &mut Stats) -> Result<(), String> {
    for n in 0..=expected.len() {
        let mut w = Limited(String::new(), n);
        let r = write!(w, "{}", p.pretty_print_root());
        ensure_eq!(r.is_ok(), n == expected.len(), "pretty printing {what} into {n} of {} bytes", expected.len());
        ensure!(expected.starts_with(&w.0), "pretty printing {what} into {n} bytes wrote {:?}", w.0);
        st.tr(1);
    }
    Ok(())
}

fn real_name(name: &str, st: &mut Stats) -> Result<(), String> {
    #[cfg(feature = "std")]
    ensure_eq!(simple(name), Some(strip(name)), "simple name of {name}");
    // a simple name is its own simple name
    #[cfg(feature = "std")]
    ensure_eq!(simple(&strip(name)), Some(strip(name)), "simple name of the simple name of {name}");
    st.state(&name);
    st.tr(2);
    Ok(())
}

#[cfg(feature = "std")]
macro_rules! unreflected {
    ($($t:ty),* $(,)?) => {
        vec![$((
            std::any::type_name::<$t>(),
            (|| SimpleTypeName::new_from_type::<$t>().to_string()) as fn() -> String,
        )),*]
    };
}

#[allow(dead_code)]
struct Life<'a, 'b, T, const N: usize>(&'a T, &'b T);
#[allow(dead_code)]
struct Consts<const A: u8, const B: bool>;
#[allow(dead_code)]
struct _Under_<T>(T);

mod modu {
    pub mod _inner_ {
        pub struct __T;
        pub struct T_<X, Y>(pub X, pub Y);
    }
}

trait Hidden {
    type T;
    type U;
}
const _: () = {
    pub struct InConst<T>(#[allow(dead_code)] T);
    const _: () = {
        pub struct InInner;
        impl Hidden for u8 {
            type T = InConst<String>;
            type U = InConst<(InInner, modu::_inner_::__T)>;
        }
    };
};

#[cfg(feature = "std")]
fn supported() -> Vec<(&'static str, fn() -> String)> {
    unreflected![
        &'static str,
        &'static mut String,
        Life<'static, 'static, u8, 4>,
        Life<'static, 'static, Life<'static, 'static, (), 0>, 4>,
        Consts<7, true>,
        Consts<0, false>,
        _Under_<_Under_<u8>>,
        modu::_inner_::__T,
        modu::_inner_::T_<modu::_inner_::__T, [modu::_inner_::__T; 3]>,
        <u8 as Hidden>::T,
        <u8 as Hidden>::U,
        Vec<<u8 as Hidden>::U>,
        (<u8 as Hidden>::T, <u8 as Hidden>::U),
        std::collections::HashMap<String, std::sync::Arc<u8>>,
        std::cell::RefCell<Option<std::rc::Rc<u8>>>,
        (u8, (u8,), (u8, u8, (u8, u8))),
        [[[u8; 1]; 2]; 3],
        Option<&'static [u8; 2]>,
        std::marker::PhantomData<fn_ty::A>,
    ]
}

mod fn_ty {
    #[allow(non_camel_case_types)]
    pub struct A;
}

#[cfg(feature = "std")]
fn unsupported() -> Vec<(&'static str, fn() -> String)> {
    unreflected![
        fn() -> u8,
        Vec<fn(u8)>,
        *const u8,
        Option<*mut String>,
        &'static [u8],
        Box<[u8]>,
        Box<dyn Reflect>,
        (u8, &'static dyn std::fmt::Debug),
        [fn(); 2],
        std::collections::HashMap<u8, Box<dyn Fn(u8) -> u8>>,
    ]
}

#[cfg(feature = "std")]
fn names(ctx: &mut Ctx) {
    let thorough = matches!(ctx.tier, Tier::Thorough);
    let leaves = leaves(thorough);
    let next = |all: &[Name], with: &[Name]| -> Vec<Name> {
        let mut out = vec![];
        for x in all {
            out.extend(around(x));
            for y in with {
                out.extend(pair(x, y));
                out.extend(pair(y, x));
            }
        }
        out
    };
    let two = next(&leaves, &leaves);
    let three = if thorough { next(&two, &leaves) } else { next(&two, &leaves[..3]) };
    for (level, names) in [leaves.clone(), two, three].into_iter().enumerate() {
        for (i, chunk) in names.chunks(512).enumerate() {
            ctx.unit(&format!("names, level {level}, {i}"), |ctx| {
                for n in chunk {
                    ctx.case(
                        || n.full.clone(),
                        |st| {
                            ensure_eq!(simple(&n.full), n.simple, "simple name of {}", n.full);
                            st.state(&n.full);
                            st.tr(1);
                            Ok(())
                        },
                    );
                }
            });
        }
    }
    ctx.unit("types that don't reflect", |ctx| {
        for (name, make) in supported() {
            ctx.case(
                || name.to_owned(),
                |st| {
                    real_name(name, st)?;
                    ensure_eq!(make(), strip(name), "simple name of the type {name}");
                    Ok(())
                },
            );
        }
        for (name, make) in unsupported() {
            ctx.case(
                || name.to_owned(),
                |st| {
                    ensure_eq!(simple(name), None, "simple name of {name}");
                    // printing it anyway panics, as documented
                    ensure!(guarded(|| Ok::<_, String>(make())).is_err(), "simple name of the type {name}");
                    st.state(&name);
                    st.tr(2);
                    Ok(())
                },
            );
        }
    });
}

fn run(ctx: &mut Ctx) {
    #[cfg(feature = "std")]
    names(ctx);
    ctx.unit("type in a closure", |ctx| {
        // a reflected type with a name that isn't supported
        let d = (|| {
            #[derive(Reflect, Clone, Debug)]
            #[allow(dead_code)]
            struct InClosure {
                a: Vec<u8>,
                b: Option<Box<InClosure>>,
            }
            (InClosure::type_descriptor_(), std::any::type_name::<InClosure>())
        })();
        ctx.case(
            || "type in a closure".to_owned(),
            |st| {
                #[cfg(feature = "std")]
                ensure!(simple(d.1).is_none(), "simple name of {}", d.1);
                let expected = format!(
                    "struct {} {{\n    a: Vec<u8>,\n    b: core::option::Option<alloc::boxed::Box<{}>>,\n}}",
                    d.1, d.1
                );
                #[cfg(not(feature = "std"))]
                let expected = expected.replace("Vec<u8>", std::any::type_name::<Vec<u8>>());
                prints(&*d.0, &expected, "type in a closure", st)
            },
        );
    });
    let depth = ctx.pick(3, 5);
    for t in universe() {
        ctx.unit(t.name, |ctx| {
            ctx.case(
                || "name and pretty printed form".to_owned(),
                |st| {
                    let d = (t.desc)();
                    let ty = (t.t)();
                    // (a box is described as what's in it)
                    real_name(t.name, st)?;
                    prints(&*d, &pretty(&ty), "descriptor", st)?;
                    prints_limited(&*d, &pretty(&ty), "descriptor", st)?;
                    types::each_node(d.get_type(), &ty, depth, &mut |node, tnode| {
                        let (types::Node::Type(ty), types::TNode::T(t)) = (node, tnode) else { return Ok(()) };
                        let want = pretty(&t);
                        real_name(t.type_name(), st)?;
                        prints(&ty, &want, "type", st)?;
                        prints(&*ty.into_type_descriptor(), &want, "own descriptor", st)?;
                        match ty {
                            Type::Struct(x) => prints(&x, &want, "struct", st),
                            Type::TupleStruct(x) => prints(&x, &want, "tuple struct", st),
                            Type::Tuple(x) => prints(&x, &want, "tuple", st),
                            Type::Enum(x) => prints(&x, &want, "enum", st),
                            Type::List(x) => prints(&x, &want, "list", st),
                            Type::Array(x) => prints(&x, &want, "array", st),
                            Type::Map(x) => prints(&x, &want, "map", st),
                            Type::Scalar(x) => prints(&x, &want, "scalar", st),
                            Type::Opaque(x) => prints(&x, &want, "opaque", st),
                        }
                    })
                },
            );
        });
    }
}

trait Describe {
    fn type_descriptor_() -> std::borrow::Cow<'static, TypeDescriptor>;
}
impl<X: DescribeType> Describe for X {
    fn type_descriptor_() -> std::borrow::Cow<'static, TypeDescriptor> {
        <X as DescribeType>::type_descriptor()
    }
}
