//! The types that are described, and what their descriptors should say.

use crate::control::{reach, Point};
use mirror_mirror::type_info::graph::{NodeId, OpaqueNode, TypeGraph};
use mirror_mirror::type_info::Type;
use mirror_mirror::{DescribeType, FromReflect, Reflect, ReflectMut, ReflectOwned, ReflectRef, TypeDescriptor, Value};
use std::any::{type_name, Any};
use std::borrow::Cow;
use std::collections::BTreeMap;
use std::sync::atomic::{AtomicUsize, Ordering};

macro_rules! opaque {
    ($t:ident, |$graph:ident| $before:expr) => {
        #[derive(Clone, Debug)]
        pub struct $t;

        impl DescribeType for $t {
            #[allow(unreachable_code, unused_variables)]
            fn build($graph: &mut TypeGraph) -> NodeId {
                $graph.get_or_build_node_with::<Self, _>(|$graph| {
                    $before;
                    OpaqueNode::new::<Self>(BTreeMap::from([("name", Value::from(stringify!($t)))]), $graph)
                })
            }
        }

        impl Reflect for $t {
            fn type_descriptor(&self) -> Cow<'static, TypeDescriptor> {
                <Self as DescribeType>::type_descriptor()
            }
            fn as_any(&self) -> &dyn Any {
                self
            }
            fn as_any_mut(&mut self) -> &mut dyn Any {
                self
            }
            fn as_reflect(&self) -> &dyn Reflect {
                self
            }
            fn as_reflect_mut(&mut self) -> &mut dyn Reflect {
                self
            }
            fn reflect_owned(self: Box<Self>) -> ReflectOwned {
                ReflectOwned::Opaque(self)
            }
            fn reflect_ref(&self) -> ReflectRef<'_> {
                ReflectRef::Opaque(self)
            }
            fn reflect_mut(&mut self) -> ReflectMut<'_> {
                ReflectMut::Opaque(self)
            }
            fn patch(&mut self, _: &dyn Reflect) {}
            fn to_value(&self) -> Value {
                Value::u8(0)
            }
            fn clone_reflect(&self) -> Box<dyn Reflect> {
                Box::new(self.clone())
            }
            fn debug(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
                f.write_str(stringify!($t))
            }
        }

        impl FromReflect for $t {
            fn from_reflect(_: &dyn Reflect) -> Option<Self> {
                Some(Self)
            }
        }

        impl From<$t> for Value {
            fn from(v: $t) -> Value {
                v.to_value()
            }
        }
    };
}

/// A switch may happen here.
fn describing(n: u8) {
    reach(Point::Build(n));
    reach(Point::Unbuild(n));
}

opaque!(A, |graph| describing(0));
opaque!(B, |graph| describing(1));
// asks for another descriptor, twice
opaque!(Asks, |graph| {
    reach(Point::Build(2));
    assert_eq!(check(0, &descriptor(0)), Ok(()));
    reach(Point::Unbuild(2));
    assert_eq!(check(0, &descriptor(0)), Ok(()));
});
// asks for one that asks for one
opaque!(AsksMore, |graph| {
    reach(Point::Build(3));
    assert_eq!(check(2, &descriptor(2)), Ok(()));
    reach(Point::Unbuild(3));
});
/// Panics the first time
pub const PANICS: u8 = 4;
opaque!(Panics, |graph| {
    reach(Point::Build(4));
    static BEFORE: AtomicUsize = AtomicUsize::new(0);
    if BEFORE.fetch_add(1, Ordering::SeqCst) == 0 {
        std::panic::resume_unwind(Box::new("panics"));
    }
    reach(Point::Unbuild(4));
});
// always panics
opaque!(NeverWorks, |graph| {
    reach(Point::Build(5));
    std::panic::resume_unwind(Box::new("never works"));
});
// asks for one that panics, and goes on
opaque!(AsksPanics, |graph| {
    reach(Point::Build(6));
    let _ = std::panic::catch_unwind(|| descriptor(5));
    reach(Point::Unbuild(6));
});

pub trait Part: FromReflect + DescribeType + Clone + std::fmt::Debug {}

impl<X: FromReflect + DescribeType + Clone + std::fmt::Debug> Part for X {}

#[derive(Reflect, Clone, Debug)]
pub struct G<X: Part> {
    pub x: X,
    pub n: u8,
}

#[derive(Reflect, Clone, Debug)]
pub enum Rec {
    Leaf(A),
    Node { left: Box<Rec>, right: Vec<Rec> },
}

/// Two types of the same name.
fn twins() -> [Get; 2] {
    [
        {
            #[derive(Reflect, Clone, Debug)]
            struct Twin {
                a: u8,
            }
            <Twin as DescribeType>::type_descriptor
        },
        {
            #[derive(Reflect, Clone, Debug)]
            struct Twin {
                b: A,
                c: u16,
            }
            <Twin as DescribeType>::type_descriptor
        },
    ]
}

pub type Get = fn() -> Cow<'static, TypeDescriptor>;

pub const KINDS: [(&str, Get); 12] = [
    ("A", <A as DescribeType>::type_descriptor),
    ("B", <B as DescribeType>::type_descriptor),
    ("Asks", <Asks as DescribeType>::type_descriptor),
    ("AsksMore", <AsksMore as DescribeType>::type_descriptor),
    ("Panics", <Panics as DescribeType>::type_descriptor),
    ("NeverWorks", <NeverWorks as DescribeType>::type_descriptor),
    ("AsksPanics", <AsksPanics as DescribeType>::type_descriptor),
    ("G<A>", <G<A> as DescribeType>::type_descriptor),
    ("G<B>", <G<B> as DescribeType>::type_descriptor),
    ("Rec", <Rec as DescribeType>::type_descriptor),
    ("Twin", || twins()[0]()),
    ("Twin'", || twins()[1]()),
];

pub const MAY_PANIC: [u8; 2] = [4, 5];

pub fn descriptor(kind: u8) -> Cow<'static, TypeDescriptor> {
    KINDS[kind as usize].1()
}

fn opaque_is(t: Type<'_>, name: &str, type_name: &str) -> Result<(), String> {
    use mirror_mirror::type_info::GetMeta;
    match t {
        Type::Opaque(o) if o.type_name() == type_name && o.get_meta::<String>("name").as_deref() == Some(name) => Ok(()),
        other => Err(format!("{} where {type_name} is expected", other.type_name())),
    }
}

/// Whether a descriptor is the one of its type.
pub fn check(kind: u8, d: &TypeDescriptor) -> Result<(), String> {
    let fields = |t: Type<'_>| -> Vec<(String, String)> {
        match t {
            Type::Struct(s) => s.field_types().map(|f| (f.name().to_owned(), f.get_type().type_name().to_owned())).collect(),
            _ => vec![],
        }
    };
    let t = d.get_type();
    match kind {
        0 => opaque_is(t, "A", type_name::<A>()),
        1 => opaque_is(t, "B", type_name::<B>()),
        2 => opaque_is(t, "Asks", type_name::<Asks>()),
        3 => opaque_is(t, "AsksMore", type_name::<AsksMore>()),
        4 => opaque_is(t, "Panics", type_name::<Panics>()),
        5 => opaque_is(t, "NeverWorks", type_name::<NeverWorks>()),
        6 => opaque_is(t, "AsksPanics", type_name::<AsksPanics>()),
        7 | 8 => {
            let (name, inner, short) = if kind == 7 {
                (type_name::<G<A>>(), type_name::<A>(), "A")
            } else {
                (type_name::<G<B>>(), type_name::<B>(), "B")
            };
            let expected = vec![("x".to_owned(), inner.to_owned()), ("n".to_owned(), "u8".to_owned())];
            if t.type_name() != name || fields(t) != expected {
                return Err(format!("{} {:?} where {name} is expected", t.type_name(), fields(t)));
            }
            opaque_is(t.as_struct().unwrap().field_type("x").unwrap().get_type(), short, inner)
        }
        10 | 11 => {
            let s = |s: &str| s.to_owned();
            let expected = if kind == 10 {
                vec![(s("a"), s("u8"))]
            } else {
                vec![(s("b"), s(type_name::<A>())), (s("c"), s("u16"))]
            };
            if fields(t) != expected {
                return Err(format!("{} {:?} where {expected:?} is expected", t.type_name(), fields(t)));
            }
            Ok(())
        }
        _ => {
            let Type::Enum(e) = t else { return Err(format!("{} where Rec is expected", t.type_name())) };
            let got: Vec<(String, Vec<String>)> = e
                .variants()
                .map(|v| (v.name().to_owned(), v.field_types().map(|f| f.get_type().type_name().to_owned()).collect()))
                .collect();
            let s = |s: &str| s.to_owned();
            let expected = vec![
                (s("Leaf"), vec![s(type_name::<A>())]),
                (s("Node"), vec![s(type_name::<Rec>()), s(type_name::<Vec<Rec>>())]),
            ];
            if e.type_name() != type_name::<Rec>() || got != expected {
                return Err(format!("{} {got:?} where {expected:?} is expected", e.type_name()));
            }
            Ok(())
        }
    }
}

/// Many other types.
pub fn many() -> Vec<(&'static str, Get)> {
    let mut out: Vec<(&'static str, Get)> = vec![];
    macro_rules! pairs {
        ($($x:ty),*; $y:tt) => { $( pairs!(@ $x, $y); )* };
        (@ $x:ty, [$($y:ty),*]) => { $(
            out.push((type_name::<($x, $y)>(), <($x, $y) as DescribeType>::type_descriptor));
            out.push((type_name::<Vec<($x, $y)>>(), <Vec<($x, $y)> as DescribeType>::type_descriptor));
        )* };
    }
    pairs!(u8, u16, u32, u64, u128, i8, i16, i32, i64, i128, bool, char, f32, f64, String, A;
        [u8, u16, u32, u64, u128, i8, i16, i32, i64, i128, bool, char, f32, f64, String, B]);
    out
}
