//! The types and values that are explored.

use crate::model::*;
use crate::observe::{observe, scalar};
use mirror_mirror::enum_::EnumValue;
use mirror_mirror::struct_::StructValue;
use mirror_mirror::tuple::TupleValue;
use mirror_mirror::tuple_struct::TupleStructValue;
use mirror_mirror::type_info::graph::{NodeId, OpaqueNode, TypeGraph};
use mirror_mirror::{
    DescribeType, FromReflect, Reflect, ReflectMut, ReflectOwned, ReflectRef, TypeDescriptor, Value,
};
use std::any::{Any, TypeId};
use std::borrow::Cow;
use std::collections::BTreeMap;
use std::num::*;
use std::ops::*;
use std::time::Duration;

/// A type together with what is known about it without reflection.
pub trait Modeled: Reflect + FromReflect + DescribeType + 'static {
    /// the reflected part of the type
    fn t() -> T;
    /// the reflected content of the value
    fn m(&self) -> M;
    /// the skipped fields of the value
    fn hidden(&self) -> Vec<u8> {
        vec![]
    }
    /// up to `n` values nested at most `d` deep
    fn vals(n: usize, d: usize) -> Vec<Self>;
    /// the same for a value that is not a part of another one
    fn vals_top(n: usize, d: usize) -> Vec<Self> {
        Self::vals(n, d)
    }
    /// values with many parts
    fn vals_long() -> Vec<Self> {
        vec![]
    }
    /// one of at least 300 different values
    fn nth(_: usize) -> Option<Self> {
        None
    }
    /// a copy that doesn't involve reflection
    fn dup(&self) -> Self;
    /// the content of what `Reflect::as_any` of a value of this type returns
    fn m_any(any: &dyn Any) -> Option<M> {
        any.downcast_ref::<Self>().map(Self::m)
    }
    /// what the debug output of the value should be
    fn dfmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result;
    /// the same when the value is a part of another value or seen through a view
    fn vfmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        self.dfmt(f)
    }
    /// the type `Reflect::as_any` of the value has
    fn any_id(&self) -> TypeId {
        TypeId::of::<Self>()
    }
    /// conversion with `From`, where there is one
    fn into_v(self) -> Option<Value> {
        None
    }
    const SELF_ANY: bool = true;
}

pub trait Obj {
    fn r(&self) -> &dyn Reflect;
    fn rm(&mut self) -> &mut dyn Reflect;
    fn m(&self) -> M;
    fn hidden(&self) -> Vec<u8>;
    fn dup(&self) -> Box<dyn Obj>;
    fn boxed(&self) -> Box<dyn Reflect>;
    fn boxed_boxed(&self) -> Box<dyn Reflect>;
    fn into_value(&self) -> Option<Value>;
    fn m_any(&self, any: &dyn Any) -> Option<M>;
    /// what the debug output should be, plain and pretty printed
    fn dbg(&self) -> Vec<(String, String)>;
    /// the same through a view
    fn dbg_view(&self) -> Vec<(String, String)>;
    /// the type `Reflect::as_any` has
    fn any_id(&self) -> TypeId;
    /// address of the value
    fn addr(&self) -> usize;
}

pub struct O<X>(pub X);

/// Prints what the debug output of a value should be.
pub struct DbgTop<'a, X>(pub &'a X);

impl<X: Modeled> std::fmt::Debug for DbgTop<'_, X> {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        self.0.dfmt(f)
    }
}

/// Prints what the debug output of a value should be when it is a part of another value.
pub struct Dbg<'a, X>(pub &'a X);

thread_local! {
    /// Type erased values that are parts of other values print as what is in them. Otherwise they
    /// print like any type erased value.
    static VIEW_FORM: std::cell::Cell<bool> = const { std::cell::Cell::new(true) };
}

impl<X: Modeled> std::fmt::Debug for Dbg<'_, X> {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        if VIEW_FORM.get() {
            self.0.vfmt(f)
        } else {
            self.0.dfmt(f)
        }
    }
}

impl<X: Modeled> Obj for O<X> {
    fn r(&self) -> &dyn Reflect {
        &self.0
    }
    fn rm(&mut self) -> &mut dyn Reflect {
        &mut self.0
    }
    fn m(&self) -> M {
        self.0.m()
    }
    fn hidden(&self) -> Vec<u8> {
        self.0.hidden()
    }
    fn dup(&self) -> Box<dyn Obj> {
        Box::new(O(self.0.dup()))
    }
    fn boxed(&self) -> Box<dyn Reflect> {
        Box::new(self.0.dup())
    }
    fn boxed_boxed(&self) -> Box<dyn Reflect> {
        Box::new(Box::new(self.0.dup()))
    }
    fn into_value(&self) -> Option<Value> {
        self.0.dup().into_v()
    }
    fn m_any(&self, any: &dyn Any) -> Option<M> {
        X::m_any(any)
    }
    fn dbg(&self) -> Vec<(String, String)> {
        [true, false]
            .map(|view| {
                VIEW_FORM.set(view);
                (format!("{:?}", DbgTop(&self.0)), format!("{:#?}", DbgTop(&self.0)))
            })
            .to_vec()
    }
    fn dbg_view(&self) -> Vec<(String, String)> {
        struct View<'a, X>(&'a X);
        impl<X: Modeled> std::fmt::Debug for View<'_, X> {
            fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
                self.0.vfmt(f)
            }
        }
        [true, false]
            .map(|view| {
                VIEW_FORM.set(view);
                (format!("{:?}", View(&self.0)), format!("{:#?}", View(&self.0)))
            })
            .to_vec()
    }
    fn any_id(&self) -> TypeId {
        self.0.any_id()
    }
    fn addr(&self) -> usize {
        &self.0 as *const X as *const () as usize
    }
}

pub struct TyInfo {
    pub name: &'static str,
    pub t: fn() -> T,
    pub long: fn() -> Vec<Box<dyn Obj>>,
    pub vals: fn(usize, usize) -> Vec<Box<dyn Obj>>,
    pub desc: fn() -> Cow<'static, TypeDescriptor>,
    pub from: fn(&dyn Reflect) -> Option<Box<dyn Obj>>,
    pub id: TypeId,
    /// the type of what `as_any` returns is this type
    pub self_any: bool,
    /// downcasting to this type: content and address
    pub down: fn(&dyn Reflect) -> Option<(M, usize)>,
    pub down_mut: fn(&mut dyn Reflect) -> Option<(M, usize)>,
}

/// Whether to leave out the long values (for when many checks have to be run).
pub static NO_LONG: std::sync::atomic::AtomicBool = std::sync::atomic::AtomicBool::new(false);

impl TyInfo {
    /// The values of all sizes.
    pub fn all(&self, n: usize, d: usize) -> Vec<Box<dyn Obj>> {
        let mut out = (self.vals)(n, d);
        if !NO_LONG.load(std::sync::atomic::Ordering::Relaxed) {
            out.extend((self.long)());
        }
        out
    }
}

pub fn ty<X: Modeled>() -> TyInfo {
    TyInfo {
        name: std::any::type_name::<X>(),
        t: X::t,
        vals: |n, d| {
            X::vals_top(n, d)
                .into_iter()
                .map(|x| Box::new(O(x)) as Box<dyn Obj>)
                .collect()
        },
        long: || X::vals_long().into_iter().map(|x| Box::new(O(x)) as Box<dyn Obj>).collect(),
        desc: <X as DescribeType>::type_descriptor,
        from: |r| X::from_reflect(r).map(|x| Box::new(O(x)) as Box<dyn Obj>),
        id: TypeId::of::<X>(),
        self_any: X::SELF_ANY,
        down: |r| r.downcast_ref::<X>().map(|x| (x.m(), x as *const X as *const () as usize)),
        down_mut: |r| r.downcast_mut::<X>().map(|x| (x.m(), x as *mut X as *const () as usize)),
    }
}

/// All combinations of indices below `lens` if there are at most `cap`, otherwise those that differ
/// from the first in one place and the diagonals.
pub fn combos(lens: &[usize], cap: usize) -> Vec<Vec<usize>> {
    if lens.iter().any(|l| *l == 0) {
        return vec![];
    }
    let total = lens.iter().fold(1usize, |a, b| a.saturating_mul(*b));
    let mut out: Vec<Vec<usize>> = vec![];
    if total <= cap {
        for mut i in 0..total {
            let mut c = vec![];
            for l in lens {
                c.push(i % l);
                i /= l;
            }
            out.push(c);
        }
        return out;
    }
    out.push(vec![0; lens.len()]);
    let max = lens.iter().max().copied().unwrap_or(0);
    for v in 1..max {
        out.push(lens.iter().map(|l| v.min(l - 1)).collect());
        for (f, l) in lens.iter().enumerate() {
            if v < *l {
                let mut c = vec![0; lens.len()];
                c[f] = v;
                out.push(c);
            }
        }
    }
    let mut seen = std::collections::BTreeSet::new();
    out.retain(|c| seen.insert(c.clone()));
    // as many of the rest as fit
    for mut i in 0..total {
        if out.len() >= cap || cap < WIDE {
            break;
        }
        let c: Vec<usize> = lens
            .iter()
            .map(|l| {
                let r = i % l;
                i /= l;
                r
            })
            .collect();
        if seen.insert(c.clone()) {
            out.push(c);
        }
    }
    out.truncate(cap);
    out
}

/// From how many values on there are more than the few chosen ones.
const WIDE: usize = 100;

/// The number of values of the parts of a value of which there are to be `n` values.
pub fn wide(n: usize, narrow: usize) -> usize {
    if n < WIDE {
        narrow
    } else {
        (n / 16).clamp(narrow, 12)
    }
}

pub fn f(name: &'static str, ty: Ty) -> FieldT {
    FieldT {
        name: Some(name),
        ty,
        with: None,
        meta: vec![],
        docs: vec![],
    }
}

pub fn u(ty: Ty) -> FieldT {
    FieldT {
        name: None,
        ty,
        with: None,
        meta: vec![],
        docs: vec![],
    }
}

pub fn variant(name: &'static str, kind: VK, fields: Vec<FieldT>) -> VariantT {
    VariantT {
        name,
        kind,
        fields,
        meta: vec![],
        docs: vec![],
    }
}

// ---------------------------------------------------------------------------------------------
// Scalars

macro_rules! scalars {
    ($($t:ident $k:ident [$($v:expr),*];)*) => {
        $(
            impl Modeled for $t {
                fn into_v(self) -> Option<Value> {
        Some(self.into())
    }
    fn t() -> T {
                    T::S(K::$k)
                }
                fn m(&self) -> M {
                    M::S(S::$k(*self))
                }
                fn vals(n: usize, _: usize) -> Vec<Self> {
                    let mut v = vec![$($v),*];
                    v.truncate(n.max(1));
                    v
                }
                fn nth(i: usize) -> Option<Self> {
                    cast(i as u16).or_else(|| cast(i as u8))
                }
                fn dup(&self) -> Self {
                    *self
                }
                fn dfmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        std::fmt::Debug::fmt(self, f)
    }
            }
        )*
    };
}

/// `Some(x)` as a `T` if that's its type.
fn cast<X: 'static, T: 'static>(x: X) -> Option<T> {
    let b: Box<dyn Any> = Box::new(x);
    b.downcast::<T>().ok().map(|x| *x)
}

/// How long long lists and maps are.
const LONG: [usize; 2] = [33, 257];
/// how deep the deep values are
pub const DEEP: usize = 33;

scalars! {
    usize Usize [1, 0, usize::MAX, 2, 1 << 32, 1 << 16, 256];
    u8 U8 [1, 2, 0, 255, 127, 128];
    u16 U16 [1, 0, u16::MAX, 256, 128, 255, 1 << 15];
    u32 U32 [1, 0, u32::MAX, 256, 1 << 16, 1 << 24, 1 << 31];
    u64 U64 [1, 0, u64::MAX, 1 << 32, 256, 1 << 16, (1 << 53) + 1, 1 << 63];
    u128 U128 [1, 0, u128::MAX, 1 << 64, 256, 1 << 32, 1 << 127];
    i8 I8 [1, -1, i8::MIN, i8::MAX, 0];
    i16 I16 [1, -1, i16::MIN, 0, i16::MAX, 128, 256, -129];
    i32 I32 [1, -1, 0, i32::MIN, i32::MAX, 128, 256, 1 << 16, (1 << 24) + 1];
    i64 I64 [1, -1, i64::MIN, 0, i64::MAX, 256, 1 << 31, -(1 << 32), (1 << 53) + 1];
    i128 I128 [1, -1, i128::MIN, 0, i128::MAX, 256, 1 << 63, 1 << 64, -(1 << 64)];
    bool Bool [false, true];
    char Char ['a', '\0', '\u{10ffff}', '"', '\u{e9}', '\u{d7ff}', '\u{e000}', '\n', '\''];
}

macro_rules! floats {
    ($($t:ident $k:ident;)*) => {
        $(
            impl Modeled for $t {
                fn into_v(self) -> Option<Value> {
        Some(self.into())
    }
    fn t() -> T {
                    T::S(K::$k)
                }
                fn m(&self) -> M {
                    M::S(S::$k(self.to_bits()))
                }
                fn vals(n: usize, _: usize) -> Vec<Self> {
                    let mut v = vec![
                        1.5, 0.0, -0.0, $t::NAN, $t::INFINITY, $t::from_bits($t::NAN.to_bits() | 5), -1.0, $t::MAX, $t::NEG_INFINITY, $t::MIN_POSITIVE, 0.1,
                        $t::from_bits(1), 1.0 + $t::EPSILON, 16777217.0,
                        -$t::NAN, $t::from_bits($t::INFINITY.to_bits() | 1), -$t::from_bits(1), 1e16, 1e-7, 18446744073709551616.0,
                    ];
                    v.truncate(n.max(1));
                    v
                }
                fn dup(&self) -> Self {
                    *self
                }
                fn dfmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        std::fmt::Debug::fmt(self, f)
    }
            }
        )*
    };
}

floats! { f32 F32; f64 F64; }

impl Modeled for String {
    fn into_v(self) -> Option<Value> {
        Some(self.into())
    }
    fn t() -> T {
        T::S(K::Str)
    }
    fn m(&self) -> M {
        M::S(S::Str(self.clone()))
    }
    fn vals(n: usize, _: usize) -> Vec<Self> {
        let mut v = vec![
            "a".to_owned(),
            String::new(),
            "b".to_owned(),
            "é\"\n".to_owned(),
            "1".to_owned(),
            " a".to_owned(),
            "A".to_owned(),
            "\0\u{10ffff}\\'".to_owned(),
            "ab".repeat(130),
        ];
        v.truncate(n.max(1));
        v
    }
    fn nth(i: usize) -> Option<Self> {
        Some(format!("{i}"))
    }
    fn dup(&self) -> Self {
        self.clone()
    }
    fn dfmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        std::fmt::Debug::fmt(self, f)
    }
}

macro_rules! nonzero {
    ($($t:ident $v:ident $s:ident [$($x:expr),*];)*) => {
        $(
            impl Modeled for $t {
                fn into_v(self) -> Option<Value> {
        Some(self.into())
    }
    fn t() -> T {
                    T::Via(V::$v)
                }
                fn m(&self) -> M {
                    M::Via(V::$v, S::$s(self.get()), 0)
                }
                fn vals(n: usize, _: usize) -> Vec<Self> {
                    let mut v = vec![$($t::new($x).unwrap()),*];
                    v.truncate(n.max(1));
                    v
                }
                fn dup(&self) -> Self {
                    *self
                }
                fn dfmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        std::fmt::Debug::fmt(self, f)
    }
            }
        )*
    };
}

nonzero! {
    NonZeroUsize NzUsize Usize [1, usize::MAX];
    NonZeroU8 NzU8 U8 [1, 255, 2];
    NonZeroU16 NzU16 U16 [1, u16::MAX];
    NonZeroU32 NzU32 U32 [1, u32::MAX];
    NonZeroU64 NzU64 U64 [1, u64::MAX];
    NonZeroU128 NzU128 U128 [1, u128::MAX];
    NonZeroI8 NzI8 I8 [1, -1, i8::MIN];
    NonZeroI16 NzI16 I16 [1, i16::MIN];
    NonZeroI32 NzI32 I32 [1, i32::MIN];
    NonZeroI64 NzI64 I64 [1, i64::MIN];
    NonZeroI128 NzI128 I128 [1, i128::MIN];
}

impl Modeled for Duration {
    fn into_v(self) -> Option<Value> {
        Some(self.into())
    }
    fn t() -> T {
        T::Via(V::Duration)
    }
    fn m(&self) -> M {
        M::Via(
            V::Duration,
            S::F32(self.as_secs_f32().to_bits()),
            self.as_nanos(),
        )
    }
    fn vals(n: usize, _: usize) -> Vec<Self> {
        // representable as a float, so that they survive a round trip
        let mut v = vec![
            Duration::from_millis(1500),
            Duration::new(123, 456_789_123),
            Duration::ZERO,
            Duration::from_secs(1 << 40),
            Duration::from_nanos(1),
        ];
        v.truncate(n.max(1));
        v
    }
    fn dup(&self) -> Self {
        *self
    }
    fn dfmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        std::fmt::Debug::fmt(self, f)
    }
}

// ---------------------------------------------------------------------------------------------
// Containers

fn cut<X>(mut v: Vec<X>, n: usize) -> Vec<X> {
    v.truncate(n.max(1));
    v
}

impl<X: Modeled> Modeled for Option<X> {
    fn into_v(self) -> Option<Value> {
        Some(self.into())
    }
    fn t() -> T {
        T::Enum {
            name: std::any::type_name::<Self>(),
            variants: vec![
                variant("None", VK::Unit, vec![]),
                variant("Some", VK::Tuple, vec![u(X::t)]),
            ],
            skipped: vec![],
            meta: vec![],
            docs: vec![],
        }
    }
    fn m(&self) -> M {
        match self {
            None => M::Enum("None".into(), VK::Unit, vec![]),
            Some(x) => M::Enum("Some".into(), VK::Tuple, vec![(None, x.m())]),
        }
    }
    fn vals(n: usize, d: usize) -> Vec<Self> {
        let mut v = vec![];
        if d > 0 {
            v.extend(X::vals(n.saturating_sub(1).max(1), d - 1).into_iter().map(Some));
        }
        v.insert(v.len().min(1), None);
        cut(v, n)
    }
    fn dup(&self) -> Self {
        self.as_ref().map(X::dup)
    }
    fn dfmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        match self {
            None => f.write_str("None"),
            Some(x) => f.debug_tuple("Some").field(&Dbg(x)).finish(),
        }
    }
}

impl<X: Modeled, E: Modeled> Modeled for Result<X, E> {
    fn into_v(self) -> Option<Value> {
        Some(self.into())
    }
    fn t() -> T {
        T::Enum {
            name: std::any::type_name::<Self>(),
            variants: vec![
                variant("Ok", VK::Tuple, vec![u(X::t)]),
                variant("Err", VK::Tuple, vec![u(E::t)]),
            ],
            skipped: vec![],
            meta: vec![],
            docs: vec![],
        }
    }
    fn m(&self) -> M {
        match self {
            Ok(x) => M::Enum("Ok".into(), VK::Tuple, vec![(None, x.m())]),
            Err(x) => M::Enum("Err".into(), VK::Tuple, vec![(None, x.m())]),
        }
    }
    fn vals(n: usize, d: usize) -> Vec<Self> {
        let d = d.saturating_sub(1);
        let h = n / 2 + 1;
        let a = X::vals(h, d).into_iter().map(Ok);
        let b = E::vals(h, d).into_iter().map(Err);
        let mut v: Vec<Self> = vec![];
        let (mut a, mut b) = (a, b);
        loop {
            let (x, y) = (a.next(), b.next());
            if x.is_none() && y.is_none() {
                break;
            }
            v.extend(x);
            v.extend(y);
        }
        cut(v, n)
    }
    fn dup(&self) -> Self {
        match self {
            Ok(x) => Ok(x.dup()),
            Err(x) => Err(x.dup()),
        }
    }
    fn dfmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        match self {
            Ok(x) => f.debug_tuple("Ok").field(&Dbg(x)).finish(),
            Err(x) => f.debug_tuple("Err").field(&Dbg(x)).finish(),
        }
    }
}

impl<X: Modeled> Modeled for Box<X> {
    fn t() -> T {
        X::t()
    }
    fn m(&self) -> M {
        (**self).m()
    }
    fn vals(n: usize, d: usize) -> Vec<Self> {
        X::vals(n, d).into_iter().map(Box::new).collect()
    }
    fn dup(&self) -> Self {
        Box::new((**self).dup())
    }
    fn dfmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        (**self).dfmt(f)
    }
    fn vfmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        (**self).vfmt(f)
    }
    fn any_id(&self) -> TypeId {
        (**self).any_id()
    }
    fn hidden(&self) -> Vec<u8> {
        (**self).hidden()
    }
    fn m_any(any: &dyn Any) -> Option<M> {
        X::m_any(any)
    }
    const SELF_ANY: bool = false;
}

impl<X: Modeled> Modeled for Vec<X> {
    fn into_v(self) -> Option<Value> {
        Some(self.into())
    }
    fn t() -> T {
        T::List {
            name: std::any::type_name::<Self>(),
            elem: X::t,
        }
    }
    fn m(&self) -> M {
        M::List(self.iter().map(X::m).collect())
    }
    fn vals(n: usize, d: usize) -> Vec<Self> {
        let mut v = vec![];
        if d > 0 {
            let e = X::vals(wide(n, 3), d - 1);
            if !e.is_empty() {
                let l = e.len().min(3);
                let mut seqs = vec![vec![0, l - 1], vec![0], vec![], (0..l).rev().collect()];
                if l > 1 {
                    seqs.push(vec![1]);
                    seqs.push(vec![1, 1]);
                }
                seqs.push((0..l).chain(0..l).collect());
                if l > 2 {
                    seqs.push(vec![2, 0, 1]);
                    seqs.push(vec![2]);
                }
                if n >= WIDE {
                    for len in 1..5 {
                        seqs.extend(combos(&vec![e.len(); len], n));
                    }
                }
                let mut seen = std::collections::BTreeSet::new();
                seqs.retain(|s| seen.insert(s.clone()));
                v.extend(seqs.into_iter().map(|s| s.into_iter().map(|i| e[i].dup()).collect::<Vec<X>>()));
                return cut(v, n);
            }
        }
        v.push(vec![]);
        v
    }
    fn vals_long() -> Vec<Self> {
        let mut out: Vec<Self> = LONG.into_iter().filter_map(|n| (0..n).map(X::nth).collect()).collect();
        out.extend((0..LONG[1]).rev().map(X::nth).collect::<Option<Self>>());
        out
    }
    fn dup(&self) -> Self {
        self.iter().map(X::dup).collect()
    }
    fn dfmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.debug_list().entries(self.iter().map(Dbg)).finish()
    }
}

impl<X: Modeled, const N: usize> Modeled for [X; N] {
    fn into_v(self) -> Option<Value> {
        Some(self.into())
    }
    fn t() -> T {
        T::Array {
            name: std::any::type_name::<Self>(),
            elem: X::t,
            len: N,
        }
    }
    fn m(&self) -> M {
        M::Array(self.iter().map(X::m).collect())
    }
    fn vals(n: usize, d: usize) -> Vec<Self> {
        let n = match NO_LONG.load(std::sync::atomic::Ordering::Relaxed) {
            _ if N < 100 => n,
            true => 1,
            false => n.min(4),
        };
        let e = X::vals(wide(n, 3), d.saturating_sub(1));
        combos(&[e.len(); N], n.max(1))
            .into_iter()
            .map(|c| std::array::from_fn(|i| e[c[i]].dup()))
            .collect()
    }
    fn dup(&self) -> Self {
        std::array::from_fn(|i| self[i].dup())
    }
    fn dfmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.debug_list().entries(self.iter().map(Dbg)).finish()
    }
}

impl<A: Modeled + Ord, B: Modeled> Modeled for BTreeMap<A, B> {
    fn into_v(self) -> Option<Value> {
        Some(self.into())
    }
    fn t() -> T {
        T::Map {
            name: std::any::type_name::<Self>(),
            key: A::t,
            value: B::t,
        }
    }
    fn m(&self) -> M {
        M::Map(self.iter().map(|(k, v)| (k.m(), v.m())).collect())
    }
    fn vals(n: usize, d: usize) -> Vec<Self> {
        let mut out = vec![];
        if d > 0 {
            let ks = A::vals(wide(n, 3), d - 1);
            let vs = B::vals(wide(n, 2), d - 1);
            if !ks.is_empty() && !vs.is_empty() {
                let last = vs.len() - 1;
                let mk = |e: &[(usize, usize)]| -> Self {
                    e.iter()
                        .filter(|(k, _)| *k < ks.len())
                        .map(|(k, v)| (ks[*k].dup(), vs[*v].dup()))
                        .collect()
                };
                out.push(mk(&[(0, 0), (1, last)]));
                out.push(mk(&[(0, 0)]));
                out.push(mk(&[]));
                out.push(mk(&[(0, last)]));
                out.push(mk(&[(1, 0), (2, last)]));
                out.push(mk(&[(0, last), (1, 0), (2, 0)]));
                out.push(mk(&[(2, last)]));
                if n >= WIDE {
                    let some = ks.len().min(5);
                    for c in combos(&vec![vs.len() + 1; some], n) {
                        let e: Vec<(usize, usize)> =
                            c.into_iter().enumerate().filter(|(_, v)| *v > 0).map(|(k, v)| (k, v - 1)).collect();
                        out.push(mk(&e));
                    }
                    out.push(mk(&(0..ks.len()).map(|k| (k, k % vs.len())).collect::<Vec<_>>()));
                }
                return cut(out, n);
            }
        }
        out.push(BTreeMap::new());
        out
    }
    fn vals_long() -> Vec<Self> {
        if TypeId::of::<A>() == TypeId::of::<u8>() {
            return vec![];
        }
        let [short, long] = LONG;
        [(short, 0), (long, 0), (long, 1)]
            .into_iter()
            .filter_map(|(n, by)| (0..n).map(|i| Some((A::nth(i)?, B::nth(i + by)?))).collect())
            .collect()
    }
    fn dup(&self) -> Self {
        self.iter().map(|(k, v)| (k.dup(), v.dup())).collect()
    }
    fn dfmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.debug_map().entries(self.iter().map(|(k, v)| (Dbg(k), Dbg(v)))).finish()
    }
}

macro_rules! tuples {
    ($(($($x:ident $i:tt),*);)*) => {
        $(
            #[allow(unused_variables, clippy::unused_unit)]
            impl<$($x: Modeled + Clone),*> Modeled for ($($x,)*) {
                fn t() -> T {
                    T::Tuple {
                        name: std::any::type_name::<Self>(),
                        elems: vec![$($x::t),*],
                    }
                }
                fn m(&self) -> M {
                    M::Tuple(vec![$(self.$i.m()),*])
                }
                fn vals(n: usize, d: usize) -> Vec<Self> {
                    let d = d.saturating_sub(1);
                    let l = ($($x::vals(wide(n, 3), d),)*);
                    combos(&[$(l.$i.len()),*], n.max(1))
                        .into_iter()
                        .map(|c| ($(l.$i[c[$i]].dup(),)*))
                        .collect()
                }
                fn dup(&self) -> Self {
                    ($(self.$i.dup(),)*)
                }
    fn dfmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
                    let fields: &[usize] = &[$($i),*];
                    if fields.is_empty() {
                        return f.write_str("()");
                    }
                    #[allow(unused_mut)]
                    let mut d = f.debug_tuple("");
                    $( d.field(&Dbg(&self.$i)); )*
                    d.finish()
    }
            }
        )*
    };
}

tuples! {
    ();
    (A 0);
    (A 0, B 1);
    (A 0, B 1, C 2);
    (A 0, B 1, C 2, D 3);
    (A 0, B 1, C 2, D 3, E 4);
    (A 0, B 1, C 2, D 3, E 4, F 5);
    (A 0, B 1, C 2, D 3, E 4, F 5, G 6);
    (A 0, B 1, C 2, D 3, E 4, F 5, G 6, H 7);
    (A 0, B 1, C 2, D 3, E 4, F 5, G 6, H 7, I 8);
    (A 0, B 1, C 2, D 3, E 4, F 5, G 6, H 7, I 8, J 9);
    (A 0, B 1, C 2, D 3, E 4, F 5, G 6, H 7, I 8, J 9, K2 10);
    (A 0, B 1, C 2, D 3, E 4, F 5, G 6, H 7, I 8, J 9, K2 10, L 11);
    (A 0, B 1, C 2, D 3, E 4, F 5, G 6, H 7, I 8, J 9, K2 10, L 11, M2 12);
    (A 0, B 1, C 2, D 3, E 4, F 5, G 6, H 7, I 8, J 9, K2 10, L 11, M2 12, N2 13);
    (A 0, B 1, C 2, D 3, E 4, F 5, G 6, H 7, I 8, J 9, K2 10, L 11, M2 12, N2 13, P2 14);
    (A 0, B 1, C 2, D 3, E 4, F 5, G 6, H 7, I 8, J 9, K2 10, L 11, M2 12, N2 13, P2 14, Q2 15);
}

macro_rules! structs {
    ($([$($g:ident)?] $t:ty { $($fl:ident: $ft:ty),* };)*) => {
        $(
            impl$(<$g: Modeled>)? Modeled for $t {
    fn into_v(self) -> Option<Value> {
        Some(self.into())
    }
                fn t() -> T {
                    T::Struct {
                        name: std::any::type_name::<Self>(),
                        fields: vec![$(f(stringify!($fl), <$ft as Modeled>::t)),*],
                        meta: vec![],
                        docs: vec![],
                    }
                }
                fn m(&self) -> M {
                    M::Struct(vec![$((stringify!($fl).to_owned(), self.$fl.m())),*])
                }
                fn vals(n: usize, d: usize) -> Vec<Self> {
                    let _d = d.saturating_sub(1);
                    let mut lens = vec![];
                    $( let $fl = <$ft as Modeled>::vals(wide(n, 4), _d); lens.push($fl.len()); )*
                    combos(&lens, n.max(1))
                        .into_iter()
                        .map(|c| {
                            let mut _c = c.into_iter();
                            let mut out = <$t as MakeRange>::make();
                            $( set_field(&mut out.$fl, $fl[_c.next().unwrap()].dup()); )*
                            finish_range(out)
                        })
                        .collect()
                }
                fn dup(&self) -> Self {
                    let mut out = <$t as MakeRange>::make();
                    $( set_field(&mut out.$fl, self.$fl.dup()); )*
                    finish_range(out)
                }
    fn dfmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
                    if <$t as MakeRange>::OWN_DEBUG {
                        return <$t as MakeRange>::own_debug(self, f);
                    }
                    f.debug_struct(std::any::type_name::<Self>())
                        $( .field(stringify!($fl), &Dbg(&self.$fl)) )*
                        .finish()
    }
            }
        )*
    };
}

// ranges and maths types are built field by field
pub trait MakeRange: Sized {
    fn make() -> Self;
    const OWN_DEBUG: bool = false;
    fn own_debug(&self, _: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        unreachable!()
    }
}
fn set_field<X>(dst: &mut X, src: X) {
    *dst = src;
}
fn finish_range<X>(x: X) -> X {
    x
}
macro_rules! make_range {
    ($($t:ident { $($fl:ident),* };)*) => {
        $(
            impl<X: Modeled> MakeRange for $t<X> {
                fn make() -> Self {
                    $t { $($fl: X::vals(1, 0).pop().unwrap()),* }
                }
            }
        )*
    };
}
make_range! {
    Range { start, end };
    RangeFrom { start };
    RangeTo { end };
    RangeToInclusive { end };
}
#[cfg(feature = "glam")]
impl MakeRange for glam::Vec2 {
    fn make() -> Self {
        Default::default()
    }
    const OWN_DEBUG: bool = true;
    fn own_debug(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        std::fmt::Debug::fmt(self, f)
    }
}
#[cfg(feature = "glam")]
impl MakeRange for glam::Vec3 {
    fn make() -> Self {
        Default::default()
    }
    const OWN_DEBUG: bool = true;
    fn own_debug(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        std::fmt::Debug::fmt(self, f)
    }
}
#[cfg(feature = "glam")]
impl MakeRange for glam::Mat3 {
    fn make() -> Self {
        Default::default()
    }
    const OWN_DEBUG: bool = true;
    fn own_debug(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        std::fmt::Debug::fmt(self, f)
    }
}
impl MakeRange for RangeFull {
    fn make() -> Self {
        ..
    }
    const OWN_DEBUG: bool = true;
    fn own_debug(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        std::fmt::Debug::fmt(self, f)
    }
}

structs! {
    [X] Range<X> { start: X, end: X };
    [X] RangeFrom<X> { start: X };
    [X] RangeTo<X> { end: X };
    [X] RangeToInclusive<X> { end: X };
    [] RangeFull {};
}

#[cfg(feature = "glam")]
structs! {
    [] glam::Vec2 { x: f32, y: f32 };
    [] glam::Vec3 { x: f32, y: f32, z: f32 };
    [] glam::Mat3 { x_axis: glam::Vec3, y_axis: glam::Vec3, z_axis: glam::Vec3 };
}

#[cfg(feature = "macaw")]
impl Modeled for macaw::ColorRgba8 {
    fn into_v(self) -> Option<Value> {
        Some(self.into())
    }
    fn t() -> T {
        T::TupleStruct {
            name: std::any::type_name::<Self>(),
            fields: vec![u(<[u8; 4] as Modeled>::t)],
            meta: vec![],
            docs: vec![],
        }
    }
    fn m(&self) -> M {
        M::TupleStruct(vec![self.0.m()])
    }
    fn vals(n: usize, d: usize) -> Vec<Self> {
        <[u8; 4]>::vals(n, d).into_iter().map(macaw::ColorRgba8).collect()
    }
    fn dfmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        std::fmt::Debug::fmt(self, f)
    }
    fn dup(&self) -> Self {
        *self
    }
}

impl Modeled for std::convert::Infallible {
    fn t() -> T {
        T::Enum {
            name: std::any::type_name::<Self>(),
            variants: vec![],
            skipped: vec![],
            meta: vec![],
            docs: vec![],
        }
    }
    fn m(&self) -> M {
        match *self {}
    }
    fn vals(_: usize, _: usize) -> Vec<Self> {
        vec![]
    }
    fn dfmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        std::fmt::Debug::fmt(self, f)
    }
    fn dup(&self) -> Self {
        *self
    }
}

// ---------------------------------------------------------------------------------------------
// Type erased values

pub fn st(fields: &[(&str, M)]) -> M {
    M::Struct(fields.iter().map(|(n, m)| (n.to_string(), m.clone())).collect())
}
pub fn en(name: &str, kind: VK, fields: &[(&str, M)]) -> M {
    M::Enum(
        name.to_owned(),
        kind,
        fields
            .iter()
            .map(|(n, m)| ((kind == VK::Struct).then(|| n.to_string()), m.clone()))
            .collect(),
    )
}

/// Some contents of type erased values, of every kind.
pub fn small_erased() -> Vec<M> {
    let i = |n| M::S(S::I32(n));
    let s = |v: &str| M::S(S::Str(v.to_owned()));
    vec![
        i(1),
        s("a"),
        st(&[("a", i(1)), ("b", s("x"))]),
        en("A", VK::Unit, &[]),
        M::List(vec![i(1), i(2)]),
        map(vec![(s("k"), i(1)), (s("l"), i(2))]),
        M::Tuple(vec![i(1), s("y")]),
        M::TupleStruct(vec![i(1), s("z")]),
        en("B", VK::Tuple, &[("", i(1)), ("", s("t"))]),
        en("C", VK::Struct, &[("x", i(1)), ("y", s("t"))]),
        st(&[("b", i(3)), ("a", M::List(vec![i(9)]))]),
        M::List(vec![]),
        map(vec![]),
        st(&[]),
        M::Tuple(vec![]),
        M::S(S::U8(3)),
        M::S(S::F32(f32::NAN.to_bits())),
        M::List(vec![st(&[("a", i(1))]), en("A", VK::Unit, &[])]),
        map(vec![(M::Tuple(vec![i(1)]), st(&[("a", i(1))]))]),
    ]
}

/// Type erased values with all selections of three fields in all orders, and all lengths up to five.
pub fn erased_family() -> Vec<M> {
    let i = |n| M::S(S::I32(n));
    let mut orders: Vec<Vec<&str>> = vec![];
    for a in ["a", "b", "c"] {
        for b in ["a", "b", "c"] {
            if a == b {
                continue;
            }
            orders.push(vec![a, b]);
            orders.extend(["a", "b", "c"].into_iter().filter(|c| *c != a && *c != b).map(|c| vec![a, b, c]));
        }
    }
    // the larger ones first
    orders.sort_by_key(|o| std::cmp::Reverse(o.len()));
    orders.extend([vec!["a"], vec!["b"], vec!["c"], vec![]]);
    let part = |n: usize, k: usize| match (n + k) % 5 {
        0 | 3 => i(10 + (n * 5 + k) as i32),
        1 => M::S(S::Bool(n % 2 == 0)),
        2 => M::S(S::Str(format!("{n}"))),
        _ => M::S(S::I64(n as i64)),
    };
    let seq = |n: usize| (0..n).map(|k| part(n, k)).collect::<Vec<_>>();
    let mut out = vec![];
    for n in 0..16 {
        if let Some(o) = orders.get(n) {
            // the type of a field only depends on its name
            let fields: Vec<(String, M)> = o
                .iter()
                .enumerate()
                .map(|(k, name)| {
                    let m = match *name {
                        "a" => i((10 * n + k) as i32),
                        "b" => M::S(S::Str(format!("{n}"))),
                        _ => M::S(S::U8((n + k) as u8)),
                    };
                    (name.to_string(), m)
                })
                .collect();
            out.push(M::Enum(
                if n % 5 == 4 { "B" } else { "A" }.into(),
                VK::Struct,
                fields.iter().cloned().map(|(n, m)| (Some(n), m)).collect(),
            ));
            out.push(M::Struct(fields));
        }
        if n < 6 {
            let n = [3, 4, 1, 2, 5, 0][n];
            out.push(M::Tuple(seq(n)));
            out.push(M::TupleStruct(seq(n)));
            out.push(M::List(seq(n)));
            out.push(map((0..n).map(|k| (part(k, 0), part(n, k))).collect()));
            out.push(M::Enum(["A", "B"][n % 2].into(), VK::Tuple, seq(n).into_iter().map(|m| (None, m)).collect()));
            out.push(M::Tuple((0..n).map(|k| i((n + k) as i32)).collect()));
            out.push(M::TupleStruct((0..n).map(|k| i((n + k) as i32)).collect()));
            out.push(M::Enum("A".into(), VK::Tuple, (0..n).map(|k| (None, i((n + k) as i32))).collect()));
            out.push(M::Enum(["B", "", "x", "A"][n % 4].into(), VK::Unit, vec![]));
        }
    }
    out
}

/// All values of all kinds of scalars.
pub fn scalar_values() -> Vec<Value> {
    fn of<T: Modeled>() -> Vec<Value> {
        T::vals(usize::MAX, 1).into_iter().filter_map(T::into_v).collect()
    }
    let kinds: [fn() -> Vec<Value>; 16] = [
        of::<usize>,
        of::<u8>,
        of::<u16>,
        of::<u32>,
        of::<u64>,
        of::<u128>,
        of::<i8>,
        of::<i16>,
        of::<i32>,
        of::<i64>,
        of::<i128>,
        of::<bool>,
        of::<char>,
        of::<f32>,
        of::<f64>,
        of::<String>,
    ];
    kinds.into_iter().flat_map(|f| f()).collect()
}

impl Modeled for Value {
    fn into_v(self) -> Option<Value> {
        Some(self.into())
    }
    fn t() -> T {
        T::Dyn(DynKind::Value)
    }
    fn m(&self) -> M {
        match self {
            Value::List(l) => M::List(l.iter().map(Value::m).collect()),
            Value::Map(m) => M::Map(m.iter().map(|(k, v)| (k.m(), v.m())).collect()),
            Value::StructValue(v) => v.m(),
            Value::TupleStructValue(v) => v.m(),
            Value::TupleValue(v) => v.m(),
            Value::EnumValue(v) => v.m(),
            other => M::S(scalar(other.as_scalar().unwrap())),
        }
    }
    fn vals(n: usize, _: usize) -> Vec<Self> {
        cut(small_erased().iter().map(M::to_value).collect(), n)
    }
    fn vals_top(n: usize, _: usize) -> Vec<Self> {
        let values = small_erased().iter().chain(&erased_family()).map(M::to_value).collect();
        scalar_values().into_iter().chain(cut(values, 3 * n)).collect()
    }
    fn vals_long() -> Vec<Self> {
        let mut out = vec![];
        for n in LONG {
            let part = |i: usize| if i % 3 == 0 { M::S(S::Str(format!("{i}"))) } else { M::S(S::I32(i as i32)) };
            let name = |i: usize| format!("f{}", i * 7 % n);
            let parts = || (0..n).map(part).collect::<Vec<_>>();
            let named = || (0..n).map(|i| (name(i), part(i))).collect::<Vec<_>>();
            out.push(M::List(parts()));
            out.push(map((0..n).map(|i| (part(i), part(i + 1))).collect()));
            if n < 100 {
                out.push(M::Struct(named()));
                out.push(M::Tuple(parts()));
                out.push(M::TupleStruct(parts()));
                out.push(M::Enum("A".into(), VK::Tuple, parts().into_iter().map(|m| (None, m)).collect()));
                out.push(M::Enum("A".into(), VK::Struct, named().into_iter().map(|(n, m)| (Some(n), m)).collect()));
            }
        }
        out.push((0..DEEP).fold(M::S(S::I32(1)), |l, i| match i % 6 {
            0 => M::List(vec![M::S(S::Bool(true)), l]),
            1 => M::Struct(vec![("a".into(), l), ("b".into(), M::S(S::U8(i as u8)))]),
            2 => map(vec![(M::S(S::I32(i as i32)), l)]),
            3 => M::Tuple(vec![l]),
            4 => M::Enum("A".into(), VK::Struct, vec![(Some("x".into()), l)]),
            _ => M::TupleStruct(vec![M::S(S::Str("s".into())), l]),
        }));
        out.iter().map(M::to_value).collect()
    }
    fn dup(&self) -> Self {
        self.m().to_value()
    }
    fn dfmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        std::fmt::Debug::fmt(self, f)
    }
    fn vfmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        use std::fmt::Debug;
        match self {
            Value::List(v) => v.dfmt(f),
            Value::Map(v) => v.dfmt(f),
            Value::StructValue(v) => v.dfmt(f),
            Value::TupleStructValue(v) => v.dfmt(f),
            Value::TupleValue(v) => v.dfmt(f),
            Value::EnumValue(v) => v.dfmt(f),
            Value::usize(v) => v.fmt(f),
            Value::u8(v) => v.fmt(f),
            Value::u16(v) => v.fmt(f),
            Value::u32(v) => v.fmt(f),
            Value::u64(v) => v.fmt(f),
            Value::u128(v) => v.fmt(f),
            Value::i8(v) => v.fmt(f),
            Value::i16(v) => v.fmt(f),
            Value::i32(v) => v.fmt(f),
            Value::i64(v) => v.fmt(f),
            Value::i128(v) => v.fmt(f),
            Value::bool(v) => v.fmt(f),
            Value::char(v) => v.fmt(f),
            Value::f32(v) => v.fmt(f),
            Value::f64(v) => v.fmt(f),
            Value::String(v) => v.fmt(f),
        }
    }
    fn any_id(&self) -> TypeId {
        match self {
            Value::List(_) => TypeId::of::<Vec<Value>>(),
            Value::Map(_) => TypeId::of::<BTreeMap<Value, Value>>(),
            Value::StructValue(_) => TypeId::of::<StructValue>(),
            Value::TupleStructValue(_) => TypeId::of::<TupleStructValue>(),
            Value::TupleValue(_) => TypeId::of::<TupleValue>(),
            Value::EnumValue(_) => TypeId::of::<EnumValue>(),
            Value::usize(_) => TypeId::of::<usize>(),
            Value::u8(_) => TypeId::of::<u8>(),
            Value::u16(_) => TypeId::of::<u16>(),
            Value::u32(_) => TypeId::of::<u32>(),
            Value::u64(_) => TypeId::of::<u64>(),
            Value::u128(_) => TypeId::of::<u128>(),
            Value::i8(_) => TypeId::of::<i8>(),
            Value::i16(_) => TypeId::of::<i16>(),
            Value::i32(_) => TypeId::of::<i32>(),
            Value::i64(_) => TypeId::of::<i64>(),
            Value::i128(_) => TypeId::of::<i128>(),
            Value::bool(_) => TypeId::of::<bool>(),
            Value::char(_) => TypeId::of::<char>(),
            Value::f32(_) => TypeId::of::<f32>(),
            Value::f64(_) => TypeId::of::<f64>(),
            Value::String(_) => TypeId::of::<String>(),
        }
    }
    fn m_any(any: &dyn Any) -> Option<M> {
        fn go<X: Modeled>(any: &dyn Any) -> Option<M> {
            any.downcast_ref::<X>().map(X::m)
        }
        go::<usize>(any)
            .or_else(|| go::<u8>(any))
            .or_else(|| go::<u16>(any))
            .or_else(|| go::<u32>(any))
            .or_else(|| go::<u64>(any))
            .or_else(|| go::<u128>(any))
            .or_else(|| go::<i8>(any))
            .or_else(|| go::<i16>(any))
            .or_else(|| go::<i32>(any))
            .or_else(|| go::<i64>(any))
            .or_else(|| go::<i128>(any))
            .or_else(|| go::<bool>(any))
            .or_else(|| go::<char>(any))
            .or_else(|| go::<f32>(any))
            .or_else(|| go::<f64>(any))
            .or_else(|| go::<String>(any))
            .or_else(|| go::<StructValue>(any))
            .or_else(|| go::<TupleStructValue>(any))
            .or_else(|| go::<TupleValue>(any))
            .or_else(|| go::<EnumValue>(any))
            .or_else(|| go::<Vec<Value>>(any))
            .or_else(|| go::<BTreeMap<Value, Value>>(any))
    }
    const SELF_ANY: bool = false;
}

macro_rules! dyn_values {
    ($($t:ident $k:ident $v:ident;)*) => {
        $(
            impl Modeled for $t {
                fn into_v(self) -> Option<Value> {
        Some(self.into())
    }
    fn t() -> T {
                    T::Dyn(DynKind::$k)
                }
                fn m(&self) -> M {
                    observe(self)
                }
                fn vals(n: usize, _: usize) -> Vec<Self> {
                    cut(
                        small_erased()
                            .iter()
                            .filter_map(|m| $v(m.to_value()))
                            .collect(),
                        n,
                    )
                }
                fn vals_top(n: usize, _: usize) -> Vec<Self> {
                    cut(
                        small_erased()
                            .iter()
                            .chain(&erased_family())
                            .filter_map(|m| $v(m.to_value()))
                            .collect(),
                        3 * n,
                    )
                }
                fn dup(&self) -> Self {
                    self.clone()
                }
    fn dfmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        std::fmt::Debug::fmt(self, f)
    }
            }
        )*
    };
}

pub fn as_struct(v: Value) -> Option<StructValue> {
    match v {
        Value::StructValue(v) => Some(*v),
        _ => None,
    }
}
pub fn as_enum(v: Value) -> Option<EnumValue> {
    match v {
        Value::EnumValue(v) => Some(*v),
        _ => None,
    }
}
pub fn as_tuple(v: Value) -> Option<TupleValue> {
    match v {
        Value::TupleValue(v) => Some(v),
        _ => None,
    }
}
pub fn as_tuple_struct(v: Value) -> Option<TupleStructValue> {
    match v {
        Value::TupleStructValue(v) => Some(v),
        _ => None,
    }
}

dyn_values! {
    StructValue Struct as_struct;
    EnumValue Enum as_enum;
    TupleValue Tuple as_tuple;
    TupleStructValue TupleStruct as_tuple_struct;
}

// ---------------------------------------------------------------------------------------------
// Opaque types

/// The type of skipped fields. Not reflectable.
#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord)]
pub struct Hid(pub u8);

impl Default for Hid {
    fn default() -> Self {
        Hid(100)
    }
}

macro_rules! opaque_types {
    ($($t:ident $default:expr;)*) => {
        $(
            #[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord)]
            pub struct $t(pub u8);

            impl DescribeType for $t {
                fn build(graph: &mut TypeGraph) -> NodeId {
                    graph.get_or_build_node_with::<Self, _>(|graph| {
                        let node = OpaqueNode::new::<Self>(
                            BTreeMap::from([("unit", Value::from("metres")), ("n", Value::from(3_i32))]),
                            graph,
                        );
                        let default: Option<u8> = $default;
                        match default {
                            Some(n) => node.default_value(n),
                            None => node,
                        }
                    })
                }
            }

            impl Reflect for $t {
                fn type_descriptor(&self) -> Cow<'static, TypeDescriptor> {
                    <Self as DescribeType>::type_descriptor()
                }
                fn as_any(&self) -> &dyn Any {
                    self
                }
                fn as_any_mut(&mut self) -> &mut dyn Any {
                    self
                }
                fn as_reflect(&self) -> &dyn Reflect {
                    self
                }
                fn as_reflect_mut(&mut self) -> &mut dyn Reflect {
                    self
                }
                fn reflect_owned(self: Box<Self>) -> ReflectOwned {
                    ReflectOwned::Opaque(self)
                }
                fn reflect_ref(&self) -> ReflectRef<'_> {
                    ReflectRef::Opaque(self)
                }
                fn reflect_mut(&mut self) -> ReflectMut<'_> {
                    ReflectMut::Opaque(self)
                }
                fn patch(&mut self, value: &dyn Reflect) {
                    if let Some(n) = Self::from_reflect(value) {
                        *self = n;
                    }
                }
                fn to_value(&self) -> Value {
                    Value::u8(self.0)
                }
                fn clone_reflect(&self) -> Box<dyn Reflect> {
                    Box::new(self.clone())
                }
                fn debug(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
                    std::fmt::Debug::fmt(self, f)
                }
            }

            impl FromReflect for $t {
                fn from_reflect(reflect: &dyn Reflect) -> Option<Self> {
                    if let Some(n) = reflect.downcast_ref::<Self>() {
                        Some(n.clone())
                    } else {
                        reflect.downcast_ref::<u8>().map(|n| Self(*n))
                    }
                }
            }

            impl From<$t> for Value {
                fn from(v: $t) -> Value {
                    v.to_value()
                }
            }

            impl Modeled for $t {
                fn into_v(self) -> Option<Value> {
        Some(self.into())
    }
    fn t() -> T {
                    T::Opaque {
                        name: std::any::type_name::<Self>(),
                        meta: vec![("unit", || Value::from("metres")), ("n", || Value::from(3_i32))],
                        default: $default,
                    }
                }
                fn m(&self) -> M {
                    M::Opaque(self.0 as u16 + if stringify!($t) == "OpB" { 256 } else { 0 })
                }
                fn vals(n: usize, _: usize) -> Vec<Self> {
                    cut(vec![Self(4), Self(6)], n)
                }
                fn dup(&self) -> Self {
                    Self(self.0)
                }
                fn dfmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        std::fmt::Debug::fmt(self, f)
    }
            }
        )*

        pub fn opaque_content(any: &dyn Any) -> Option<M> {
            $(
                if let Some(v) = any.downcast_ref::<$t>() {
                    return Some(v.m());
                }
            )*
            None
        }

        pub fn set_opaque(any: &mut dyn Any, n: u16) -> bool {
            $(
                if let Some(v) = any.downcast_mut::<$t>() {
                    v.0 = n as u8;
                    return true;
                }
            )*
            false
        }
    };
}

opaque_types! {
    OpA None;
    OpB Some(7);
}

// ---------------------------------------------------------------------------------------------
// Custom readers of fields

/// Reads an `i32`, or the length of a string.
pub fn rd_i32(r: &dyn Reflect) -> Option<i32> {
    i32::from_reflect(r).or_else(|| String::from_reflect(r).map(|s| s.len() as i32 + 1000))
}
pub fn rd_i32_m(m: &M) -> R {
    match m {
        M::S(S::I32(_)) => R::Yes(m.clone()),
        M::S(S::Str(s)) => R::Yes(M::S(S::I32(s.len() as i32 + 1000))),
        _ => R::No,
    }
}

/// Reads a string, or the digits of an `i32`.
pub fn rd_str(r: &dyn Reflect) -> Option<String> {
    String::from_reflect(r).or_else(|| i32::from_reflect(r).map(|s| format!("n{s}")))
}
pub fn rd_str_m(m: &M) -> R {
    match m {
        M::S(S::Str(_)) => R::Yes(m.clone()),
        M::S(S::I32(n)) => R::Yes(M::S(S::Str(format!("n{n}")))),
        _ => R::No,
    }
}

/// Reads a list of bytes, or a single byte, and refuses long lists.
pub fn rd_bytes(r: &dyn Reflect) -> Option<Vec<u8>> {
    Vec::<u8>::from_reflect(r)
        .or_else(|| u8::from_reflect(r).map(|n| vec![n]))
        .filter(|l| l.len() < 7)
}
pub fn rd_bytes_m(m: &M) -> R {
    match m {
        M::S(S::U8(n)) => R::Yes(M::List(vec![M::S(S::U8(*n))])),
        M::List(l) if l.len() >= 7 => R::No,
        M::List(_) => conv(&<Vec<u8>>::t(), m),
        M::Array(_) => R::Unspec,
        _ => R::No,
    }
}

// the generated types
pub use crate::types_gen::*;
