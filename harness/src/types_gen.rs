// Generated by tools/gen_types.py. Do not edit.
use crate::model::*;
use crate::universe::*;
use mirror_mirror::{Enum, FromReflect, Reflect, Struct, TupleStruct, Value};
use std::collections::BTreeMap;
use std::num::*;
use std::time::Duration;
#[allow(unused_imports)] use std::ops::*;

fn interleave<X>(mut per: Vec<Vec<X>>, n: usize) -> Vec<X> {
    let mut out = vec![];
    let mut its: Vec<_> = per.drain(..).map(|v| v.into_iter()).collect();
    loop {
        let before = out.len();
        for it in &mut its { out.extend(it.next()); }
        if out.len() == before || out.len() >= n.max(its.len()) { break; }
    }
    out
}

#[allow(dead_code)]
#[derive(Reflect, Clone, Debug, PartialEq, Eq, PartialOrd, Ord)]
pub struct S0m0 {
}
#[allow(unused_variables, unused_mut, clippy::all)]
impl Modeled for S0m0 {
    fn t() -> T {
        T::Struct { name: std::any::type_name::<Self>(), fields: vec![], meta: vec![], docs: vec![] }
    }
    fn m(&self) -> M {
        M::Struct(vec![])
    }
    fn hidden(&self) -> Vec<u8> {
        vec![]
    }
    fn vals(n: usize, d: usize) -> Vec<Self> {
         combos(&[], n.max(1)).into_iter().map(|c: Vec<usize>| Self {  }).collect::<Vec<Self>>()
    }
    fn into_v(self) -> Option<Value> { Some(self.into()) }
    fn dup(&self) -> Self {
        Self {  }
    }
    fn dfmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        std::fmt::Debug::fmt(self, f)
    }
}

#[allow(dead_code)]
#[derive(Reflect, Clone, Debug, PartialEq, Eq, PartialOrd, Ord)]
pub struct T0m0(
);
#[allow(unused_variables, unused_mut, clippy::all)]
impl Modeled for T0m0 {
    fn t() -> T {
        T::TupleStruct { name: std::any::type_name::<Self>(), fields: vec![], meta: vec![], docs: vec![] }
    }
    fn m(&self) -> M {
        M::TupleStruct(vec![])
    }
    fn hidden(&self) -> Vec<u8> {
        vec![]
    }
    fn vals(n: usize, d: usize) -> Vec<Self> {
         combos(&[], n.max(1)).into_iter().map(|c: Vec<usize>| Self()).collect::<Vec<Self>>()
    }
    fn into_v(self) -> Option<Value> { Some(self.into()) }
    fn dup(&self) -> Self {
        Self()
    }
    fn dfmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        std::fmt::Debug::fmt(self, f)
    }
}

#[allow(dead_code)]
#[derive(Reflect, Clone, Debug, PartialEq, Eq, PartialOrd, Ord)]
pub enum E0m0 {
    A,
    B {
    },
    C(
    ),
}
#[allow(unused_variables, unused_mut, clippy::all)]
impl Modeled for E0m0 {
    fn t() -> T {
        T::Enum { name: std::any::type_name::<Self>(), variants: vec![VariantT { name: "A", kind: VK::Unit, fields: vec![], meta: vec![], docs: vec![] }, VariantT { name: "B", kind: VK::Struct, fields: vec![], meta: vec![], docs: vec![] }, VariantT { name: "C", kind: VK::Tuple, fields: vec![], meta: vec![], docs: vec![] }], skipped: vec![], meta: vec![], docs: vec![] }
    }
    fn m(&self) -> M {
        match self {
            Self::A => M::Enum("A".into(), VK::Unit, vec![]),
            Self::B {  } => M::Enum("B".into(), VK::Struct, vec![]),
            Self::C() => M::Enum("C".into(), VK::Tuple, vec![]),
        }
    }
    fn hidden(&self) -> Vec<u8> {
        match self {
            _ => vec![],
        }
    }
    fn vals(n: usize, d: usize) -> Vec<Self> {
        let mut per: Vec<Vec<Self>> = vec![];
        per.push(vec![Self::A]);
        per.push({  combos(&[], n.max(1)).into_iter().map(|c: Vec<usize>| Self::B {  }).collect::<Vec<Self>>() });
        per.push({  combos(&[], n.max(1)).into_iter().map(|c: Vec<usize>| Self::C()).collect::<Vec<Self>>() });
        interleave(per, n)
    }
    fn into_v(self) -> Option<Value> { Some(self.into()) }
    fn dup(&self) -> Self {
        match self {
            Self::A => Self::A,
            Self::B {  } => Self::B {  },
            Self::C() => Self::C(),
        }
    }
    fn dfmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        std::fmt::Debug::fmt(self, f)
    }
}

#[allow(dead_code)]
#[derive(Reflect, Clone, Debug, PartialEq, Eq, PartialOrd, Ord)]
pub struct S1m0 {
    pub a: i32,
}
#[allow(unused_variables, unused_mut, clippy::all)]
impl Modeled for S1m0 {
    fn t() -> T {
        T::Struct { name: std::any::type_name::<Self>(), fields: vec![FieldT { name: Some("a"), ty: <i32 as Modeled>::t, with: None, meta: vec![], docs: vec![] }], meta: vec![], docs: vec![] }
    }
    fn m(&self) -> M {
        M::Struct(vec![("a".to_owned(), self.a.m())])
    }
    fn hidden(&self) -> Vec<u8> {
        vec![]
    }
    fn vals(n: usize, d: usize) -> Vec<Self> {
        let l0 = <i32 as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); combos(&[l0.len()], n.max(1)).into_iter().map(|c: Vec<usize>| Self { a: l0[c[0]].dup() }).collect::<Vec<Self>>()
    }
    fn into_v(self) -> Option<Value> { Some(self.into()) }
    fn dup(&self) -> Self {
        Self { a: self.a.dup() }
    }
    fn dfmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        std::fmt::Debug::fmt(self, f)
    }
}

#[allow(dead_code)]
#[derive(Reflect, Clone, Debug, PartialEq, Eq, PartialOrd, Ord)]
pub struct T1m0(
    pub i32,
);
#[allow(unused_variables, unused_mut, clippy::all)]
impl Modeled for T1m0 {
    fn t() -> T {
        T::TupleStruct { name: std::any::type_name::<Self>(), fields: vec![FieldT { name: None, ty: <i32 as Modeled>::t, with: None, meta: vec![], docs: vec![] }], meta: vec![], docs: vec![] }
    }
    fn m(&self) -> M {
        M::TupleStruct(vec![self.0.m()])
    }
    fn hidden(&self) -> Vec<u8> {
        vec![]
    }
    fn vals(n: usize, d: usize) -> Vec<Self> {
        let l0 = <i32 as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); combos(&[l0.len()], n.max(1)).into_iter().map(|c: Vec<usize>| Self(l0[c[0]].dup())).collect::<Vec<Self>>()
    }
    fn into_v(self) -> Option<Value> { Some(self.into()) }
    fn dup(&self) -> Self {
        Self(self.0.dup())
    }
    fn dfmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        std::fmt::Debug::fmt(self, f)
    }
}

#[allow(dead_code)]
#[derive(Reflect, Clone, Debug, PartialEq, Eq, PartialOrd, Ord)]
pub enum E1m0 {
    A,
    B {
        a: i32,
    },
    C(
        i32,
    ),
}
#[allow(unused_variables, unused_mut, clippy::all)]
impl Modeled for E1m0 {
    fn t() -> T {
        T::Enum { name: std::any::type_name::<Self>(), variants: vec![VariantT { name: "A", kind: VK::Unit, fields: vec![], meta: vec![], docs: vec![] }, VariantT { name: "B", kind: VK::Struct, fields: vec![FieldT { name: Some("a"), ty: <i32 as Modeled>::t, with: None, meta: vec![], docs: vec![] }], meta: vec![], docs: vec![] }, VariantT { name: "C", kind: VK::Tuple, fields: vec![FieldT { name: None, ty: <i32 as Modeled>::t, with: None, meta: vec![], docs: vec![] }], meta: vec![], docs: vec![] }], skipped: vec![], meta: vec![], docs: vec![] }
    }
    fn m(&self) -> M {
        match self {
            Self::A => M::Enum("A".into(), VK::Unit, vec![]),
            Self::B { a: x0 } => M::Enum("B".into(), VK::Struct, vec![(Some("a".into()), x0.m())]),
            Self::C(x0) => M::Enum("C".into(), VK::Tuple, vec![(None, x0.m())]),
        }
    }
    fn hidden(&self) -> Vec<u8> {
        match self {
            _ => vec![],
        }
    }
    fn vals(n: usize, d: usize) -> Vec<Self> {
        let mut per: Vec<Vec<Self>> = vec![];
        per.push(vec![Self::A]);
        per.push({ let l0 = <i32 as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); combos(&[l0.len()], n.max(1)).into_iter().map(|c: Vec<usize>| Self::B { a: l0[c[0]].dup() }).collect::<Vec<Self>>() });
        per.push({ let l0 = <i32 as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); combos(&[l0.len()], n.max(1)).into_iter().map(|c: Vec<usize>| Self::C(l0[c[0]].dup())).collect::<Vec<Self>>() });
        interleave(per, n)
    }
    fn into_v(self) -> Option<Value> { Some(self.into()) }
    fn dup(&self) -> Self {
        match self {
            Self::A => Self::A,
            Self::B { a: x0 } => Self::B { a: x0.dup() },
            Self::C(x0) => Self::C(x0.dup()),
        }
    }
    fn dfmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        std::fmt::Debug::fmt(self, f)
    }
}

#[allow(dead_code)]
#[derive(Reflect, Clone, Debug, PartialEq, Eq, PartialOrd, Ord)]
pub struct S1m1 {
    #[reflect(skip)] pub a: Hid,
}
#[allow(unused_variables, unused_mut, clippy::all)]
impl Modeled for S1m1 {
    fn t() -> T {
        T::Struct { name: std::any::type_name::<Self>(), fields: vec![], meta: vec![], docs: vec![] }
    }
    fn m(&self) -> M {
        M::Struct(vec![])
    }
    fn hidden(&self) -> Vec<u8> {
        vec![self.a.0]
    }
    fn vals(n: usize, d: usize) -> Vec<Self> {
         combos(&[], n.max(1)).into_iter().map(|c: Vec<usize>| Self { a: Hid(1) }).collect::<Vec<Self>>()
    }
    fn into_v(self) -> Option<Value> { Some(self.into()) }
    fn dup(&self) -> Self {
        Self { a: Hid(self.a.0) }
    }
    fn dfmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        std::fmt::Debug::fmt(self, f)
    }
}

#[allow(dead_code)]
#[derive(Reflect, Clone, Debug, PartialEq, Eq, PartialOrd, Ord)]
pub struct T1m1(
    #[reflect(skip)] pub Hid,
);
#[allow(unused_variables, unused_mut, clippy::all)]
impl Modeled for T1m1 {
    fn t() -> T {
        T::TupleStruct { name: std::any::type_name::<Self>(), fields: vec![], meta: vec![], docs: vec![] }
    }
    fn m(&self) -> M {
        M::TupleStruct(vec![])
    }
    fn hidden(&self) -> Vec<u8> {
        vec![self.0.0]
    }
    fn vals(n: usize, d: usize) -> Vec<Self> {
         combos(&[], n.max(1)).into_iter().map(|c: Vec<usize>| Self(Hid(1))).collect::<Vec<Self>>()
    }
    fn into_v(self) -> Option<Value> { Some(self.into()) }
    fn dup(&self) -> Self {
        Self(Hid(self.0.0))
    }
    fn dfmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        std::fmt::Debug::fmt(self, f)
    }
}

#[allow(dead_code)]
#[derive(Reflect, Clone, Debug, PartialEq, Eq, PartialOrd, Ord)]
pub enum E1m1 {
    A,
    B {
        #[reflect(skip)] a: Hid,
    },
    C(
        #[reflect(skip)] Hid,
    ),
}
#[allow(unused_variables, unused_mut, clippy::all)]
impl Modeled for E1m1 {
    fn t() -> T {
        T::Enum { name: std::any::type_name::<Self>(), variants: vec![VariantT { name: "A", kind: VK::Unit, fields: vec![], meta: vec![], docs: vec![] }, VariantT { name: "B", kind: VK::Struct, fields: vec![], meta: vec![], docs: vec![] }, VariantT { name: "C", kind: VK::Tuple, fields: vec![], meta: vec![], docs: vec![] }], skipped: vec![], meta: vec![], docs: vec![] }
    }
    fn m(&self) -> M {
        match self {
            Self::A => M::Enum("A".into(), VK::Unit, vec![]),
            Self::B { a: x0 } => M::Enum("B".into(), VK::Struct, vec![]),
            Self::C(x0) => M::Enum("C".into(), VK::Tuple, vec![]),
        }
    }
    fn hidden(&self) -> Vec<u8> {
        match self {
            Self::B { a: x0 } => vec![x0.0],
            Self::C(x0) => vec![x0.0],
            _ => vec![],
        }
    }
    fn vals(n: usize, d: usize) -> Vec<Self> {
        let mut per: Vec<Vec<Self>> = vec![];
        per.push(vec![Self::A]);
        per.push({  combos(&[], n.max(1)).into_iter().map(|c: Vec<usize>| Self::B { a: Hid(1) }).collect::<Vec<Self>>() });
        per.push({  combos(&[], n.max(1)).into_iter().map(|c: Vec<usize>| Self::C(Hid(1))).collect::<Vec<Self>>() });
        interleave(per, n)
    }
    fn into_v(self) -> Option<Value> { Some(self.into()) }
    fn dup(&self) -> Self {
        match self {
            Self::A => Self::A,
            Self::B { a: x0 } => Self::B { a: Hid(x0.0) },
            Self::C(x0) => Self::C(Hid(x0.0)),
        }
    }
    fn dfmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        std::fmt::Debug::fmt(self, f)
    }
}

#[allow(dead_code)]
#[derive(Reflect, Clone, Debug, PartialEq, Eq, PartialOrd, Ord)]
pub struct S2m0 {
    pub a: i32,
    pub b: String,
}
#[allow(unused_variables, unused_mut, clippy::all)]
impl Modeled for S2m0 {
    fn t() -> T {
        T::Struct { name: std::any::type_name::<Self>(), fields: vec![FieldT { name: Some("a"), ty: <i32 as Modeled>::t, with: None, meta: vec![], docs: vec![] }, FieldT { name: Some("b"), ty: <String as Modeled>::t, with: None, meta: vec![], docs: vec![] }], meta: vec![], docs: vec![] }
    }
    fn m(&self) -> M {
        M::Struct(vec![("a".to_owned(), self.a.m()), ("b".to_owned(), self.b.m())])
    }
    fn hidden(&self) -> Vec<u8> {
        vec![]
    }
    fn vals(n: usize, d: usize) -> Vec<Self> {
        let l0 = <i32 as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); let l1 = <String as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); combos(&[l0.len(), l1.len()], n.max(1)).into_iter().map(|c: Vec<usize>| Self { a: l0[c[0]].dup(), b: l1[c[1]].dup() }).collect::<Vec<Self>>()
    }
    fn into_v(self) -> Option<Value> { Some(self.into()) }
    fn dup(&self) -> Self {
        Self { a: self.a.dup(), b: self.b.dup() }
    }
    fn dfmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        std::fmt::Debug::fmt(self, f)
    }
}

#[allow(dead_code)]
#[derive(Reflect, Clone, Debug, PartialEq, Eq, PartialOrd, Ord)]
pub struct T2m0(
    pub i32,
    pub String,
);
#[allow(unused_variables, unused_mut, clippy::all)]
impl Modeled for T2m0 {
    fn t() -> T {
        T::TupleStruct { name: std::any::type_name::<Self>(), fields: vec![FieldT { name: None, ty: <i32 as Modeled>::t, with: None, meta: vec![], docs: vec![] }, FieldT { name: None, ty: <String as Modeled>::t, with: None, meta: vec![], docs: vec![] }], meta: vec![], docs: vec![] }
    }
    fn m(&self) -> M {
        M::TupleStruct(vec![self.0.m(), self.1.m()])
    }
    fn hidden(&self) -> Vec<u8> {
        vec![]
    }
    fn vals(n: usize, d: usize) -> Vec<Self> {
        let l0 = <i32 as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); let l1 = <String as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); combos(&[l0.len(), l1.len()], n.max(1)).into_iter().map(|c: Vec<usize>| Self(l0[c[0]].dup(), l1[c[1]].dup())).collect::<Vec<Self>>()
    }
    fn into_v(self) -> Option<Value> { Some(self.into()) }
    fn dup(&self) -> Self {
        Self(self.0.dup(), self.1.dup())
    }
    fn dfmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        std::fmt::Debug::fmt(self, f)
    }
}

#[allow(dead_code)]
#[derive(Reflect, Clone, Debug, PartialEq, Eq, PartialOrd, Ord)]
pub enum E2m0 {
    A,
    B {
        a: i32,
        b: String,
    },
    C(
        i32,
        String,
    ),
}
#[allow(unused_variables, unused_mut, clippy::all)]
impl Modeled for E2m0 {
    fn t() -> T {
        T::Enum { name: std::any::type_name::<Self>(), variants: vec![VariantT { name: "A", kind: VK::Unit, fields: vec![], meta: vec![], docs: vec![] }, VariantT { name: "B", kind: VK::Struct, fields: vec![FieldT { name: Some("a"), ty: <i32 as Modeled>::t, with: None, meta: vec![], docs: vec![] }, FieldT { name: Some("b"), ty: <String as Modeled>::t, with: None, meta: vec![], docs: vec![] }], meta: vec![], docs: vec![] }, VariantT { name: "C", kind: VK::Tuple, fields: vec![FieldT { name: None, ty: <i32 as Modeled>::t, with: None, meta: vec![], docs: vec![] }, FieldT { name: None, ty: <String as Modeled>::t, with: None, meta: vec![], docs: vec![] }], meta: vec![], docs: vec![] }], skipped: vec![], meta: vec![], docs: vec![] }
    }
    fn m(&self) -> M {
        match self {
            Self::A => M::Enum("A".into(), VK::Unit, vec![]),
            Self::B { a: x0, b: x1 } => M::Enum("B".into(), VK::Struct, vec![(Some("a".into()), x0.m()), (Some("b".into()), x1.m())]),
            Self::C(x0, x1) => M::Enum("C".into(), VK::Tuple, vec![(None, x0.m()), (None, x1.m())]),
        }
    }
    fn hidden(&self) -> Vec<u8> {
        match self {
            _ => vec![],
        }
    }
    fn vals(n: usize, d: usize) -> Vec<Self> {
        let mut per: Vec<Vec<Self>> = vec![];
        per.push(vec![Self::A]);
        per.push({ let l0 = <i32 as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); let l1 = <String as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); combos(&[l0.len(), l1.len()], n.max(1)).into_iter().map(|c: Vec<usize>| Self::B { a: l0[c[0]].dup(), b: l1[c[1]].dup() }).collect::<Vec<Self>>() });
        per.push({ let l0 = <i32 as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); let l1 = <String as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); combos(&[l0.len(), l1.len()], n.max(1)).into_iter().map(|c: Vec<usize>| Self::C(l0[c[0]].dup(), l1[c[1]].dup())).collect::<Vec<Self>>() });
        interleave(per, n)
    }
    fn into_v(self) -> Option<Value> { Some(self.into()) }
    fn dup(&self) -> Self {
        match self {
            Self::A => Self::A,
            Self::B { a: x0, b: x1 } => Self::B { a: x0.dup(), b: x1.dup() },
            Self::C(x0, x1) => Self::C(x0.dup(), x1.dup()),
        }
    }
    fn dfmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        std::fmt::Debug::fmt(self, f)
    }
}

#[allow(dead_code)]
#[derive(Reflect, Clone, Debug, PartialEq, Eq, PartialOrd, Ord)]
pub struct S2m1 {
    #[reflect(skip)] pub a: Hid,
    pub b: String,
}
#[allow(unused_variables, unused_mut, clippy::all)]
impl Modeled for S2m1 {
    fn t() -> T {
        T::Struct { name: std::any::type_name::<Self>(), fields: vec![FieldT { name: Some("b"), ty: <String as Modeled>::t, with: None, meta: vec![], docs: vec![] }], meta: vec![], docs: vec![] }
    }
    fn m(&self) -> M {
        M::Struct(vec![("b".to_owned(), self.b.m())])
    }
    fn hidden(&self) -> Vec<u8> {
        vec![self.a.0]
    }
    fn vals(n: usize, d: usize) -> Vec<Self> {
        let l1 = <String as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); combos(&[l1.len()], n.max(1)).into_iter().map(|c: Vec<usize>| Self { a: Hid(1), b: l1[c[0]].dup() }).collect::<Vec<Self>>()
    }
    fn into_v(self) -> Option<Value> { Some(self.into()) }
    fn dup(&self) -> Self {
        Self { a: Hid(self.a.0), b: self.b.dup() }
    }
    fn dfmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        std::fmt::Debug::fmt(self, f)
    }
}

#[allow(dead_code)]
#[derive(Reflect, Clone, Debug, PartialEq, Eq, PartialOrd, Ord)]
pub struct T2m1(
    #[reflect(skip)] pub Hid,
    pub String,
);
#[allow(unused_variables, unused_mut, clippy::all)]
impl Modeled for T2m1 {
    fn t() -> T {
        T::TupleStruct { name: std::any::type_name::<Self>(), fields: vec![FieldT { name: None, ty: <String as Modeled>::t, with: None, meta: vec![], docs: vec![] }], meta: vec![], docs: vec![] }
    }
    fn m(&self) -> M {
        M::TupleStruct(vec![self.1.m()])
    }
    fn hidden(&self) -> Vec<u8> {
        vec![self.0.0]
    }
    fn vals(n: usize, d: usize) -> Vec<Self> {
        let l1 = <String as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); combos(&[l1.len()], n.max(1)).into_iter().map(|c: Vec<usize>| Self(Hid(1), l1[c[0]].dup())).collect::<Vec<Self>>()
    }
    fn into_v(self) -> Option<Value> { Some(self.into()) }
    fn dup(&self) -> Self {
        Self(Hid(self.0.0), self.1.dup())
    }
    fn dfmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        std::fmt::Debug::fmt(self, f)
    }
}

#[allow(dead_code)]
#[derive(Reflect, Clone, Debug, PartialEq, Eq, PartialOrd, Ord)]
pub enum E2m1 {
    A,
    B {
        #[reflect(skip)] a: Hid,
        b: String,
    },
    C(
        #[reflect(skip)] Hid,
        String,
    ),
}
#[allow(unused_variables, unused_mut, clippy::all)]
impl Modeled for E2m1 {
    fn t() -> T {
        T::Enum { name: std::any::type_name::<Self>(), variants: vec![VariantT { name: "A", kind: VK::Unit, fields: vec![], meta: vec![], docs: vec![] }, VariantT { name: "B", kind: VK::Struct, fields: vec![FieldT { name: Some("b"), ty: <String as Modeled>::t, with: None, meta: vec![], docs: vec![] }], meta: vec![], docs: vec![] }, VariantT { name: "C", kind: VK::Tuple, fields: vec![FieldT { name: None, ty: <String as Modeled>::t, with: None, meta: vec![], docs: vec![] }], meta: vec![], docs: vec![] }], skipped: vec![], meta: vec![], docs: vec![] }
    }
    fn m(&self) -> M {
        match self {
            Self::A => M::Enum("A".into(), VK::Unit, vec![]),
            Self::B { a: x0, b: x1 } => M::Enum("B".into(), VK::Struct, vec![(Some("b".into()), x1.m())]),
            Self::C(x0, x1) => M::Enum("C".into(), VK::Tuple, vec![(None, x1.m())]),
        }
    }
    fn hidden(&self) -> Vec<u8> {
        match self {
            Self::B { a: x0, b: x1 } => vec![x0.0],
            Self::C(x0, x1) => vec![x0.0],
            _ => vec![],
        }
    }
    fn vals(n: usize, d: usize) -> Vec<Self> {
        let mut per: Vec<Vec<Self>> = vec![];
        per.push(vec![Self::A]);
        per.push({ let l1 = <String as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); combos(&[l1.len()], n.max(1)).into_iter().map(|c: Vec<usize>| Self::B { a: Hid(1), b: l1[c[0]].dup() }).collect::<Vec<Self>>() });
        per.push({ let l1 = <String as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); combos(&[l1.len()], n.max(1)).into_iter().map(|c: Vec<usize>| Self::C(Hid(1), l1[c[0]].dup())).collect::<Vec<Self>>() });
        interleave(per, n)
    }
    fn into_v(self) -> Option<Value> { Some(self.into()) }
    fn dup(&self) -> Self {
        match self {
            Self::A => Self::A,
            Self::B { a: x0, b: x1 } => Self::B { a: Hid(x0.0), b: x1.dup() },
            Self::C(x0, x1) => Self::C(Hid(x0.0), x1.dup()),
        }
    }
    fn dfmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        std::fmt::Debug::fmt(self, f)
    }
}

#[allow(dead_code)]
#[derive(Reflect, Clone, Debug, PartialEq, Eq, PartialOrd, Ord)]
pub struct S2m2 {
    pub a: i32,
    #[reflect(skip)] pub b: Hid,
}
#[allow(unused_variables, unused_mut, clippy::all)]
impl Modeled for S2m2 {
    fn t() -> T {
        T::Struct { name: std::any::type_name::<Self>(), fields: vec![FieldT { name: Some("a"), ty: <i32 as Modeled>::t, with: None, meta: vec![], docs: vec![] }], meta: vec![], docs: vec![] }
    }
    fn m(&self) -> M {
        M::Struct(vec![("a".to_owned(), self.a.m())])
    }
    fn hidden(&self) -> Vec<u8> {
        vec![self.b.0]
    }
    fn vals(n: usize, d: usize) -> Vec<Self> {
        let l0 = <i32 as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); combos(&[l0.len()], n.max(1)).into_iter().map(|c: Vec<usize>| Self { a: l0[c[0]].dup(), b: Hid(2) }).collect::<Vec<Self>>()
    }
    fn into_v(self) -> Option<Value> { Some(self.into()) }
    fn dup(&self) -> Self {
        Self { a: self.a.dup(), b: Hid(self.b.0) }
    }
    fn dfmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        std::fmt::Debug::fmt(self, f)
    }
}

#[allow(dead_code)]
#[derive(Reflect, Clone, Debug, PartialEq, Eq, PartialOrd, Ord)]
pub struct T2m2(
    pub i32,
    #[reflect(skip)] pub Hid,
);
#[allow(unused_variables, unused_mut, clippy::all)]
impl Modeled for T2m2 {
    fn t() -> T {
        T::TupleStruct { name: std::any::type_name::<Self>(), fields: vec![FieldT { name: None, ty: <i32 as Modeled>::t, with: None, meta: vec![], docs: vec![] }], meta: vec![], docs: vec![] }
    }
    fn m(&self) -> M {
        M::TupleStruct(vec![self.0.m()])
    }
    fn hidden(&self) -> Vec<u8> {
        vec![self.1.0]
    }
    fn vals(n: usize, d: usize) -> Vec<Self> {
        let l0 = <i32 as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); combos(&[l0.len()], n.max(1)).into_iter().map(|c: Vec<usize>| Self(l0[c[0]].dup(), Hid(2))).collect::<Vec<Self>>()
    }
    fn into_v(self) -> Option<Value> { Some(self.into()) }
    fn dup(&self) -> Self {
        Self(self.0.dup(), Hid(self.1.0))
    }
    fn dfmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        std::fmt::Debug::fmt(self, f)
    }
}

#[allow(dead_code)]
#[derive(Reflect, Clone, Debug, PartialEq, Eq, PartialOrd, Ord)]
pub enum E2m2 {
    A,
    B {
        a: i32,
        #[reflect(skip)] b: Hid,
    },
    C(
        i32,
        #[reflect(skip)] Hid,
    ),
}
#[allow(unused_variables, unused_mut, clippy::all)]
impl Modeled for E2m2 {
    fn t() -> T {
        T::Enum { name: std::any::type_name::<Self>(), variants: vec![VariantT { name: "A", kind: VK::Unit, fields: vec![], meta: vec![], docs: vec![] }, VariantT { name: "B", kind: VK::Struct, fields: vec![FieldT { name: Some("a"), ty: <i32 as Modeled>::t, with: None, meta: vec![], docs: vec![] }], meta: vec![], docs: vec![] }, VariantT { name: "C", kind: VK::Tuple, fields: vec![FieldT { name: None, ty: <i32 as Modeled>::t, with: None, meta: vec![], docs: vec![] }], meta: vec![], docs: vec![] }], skipped: vec![], meta: vec![], docs: vec![] }
    }
    fn m(&self) -> M {
        match self {
            Self::A => M::Enum("A".into(), VK::Unit, vec![]),
            Self::B { a: x0, b: x1 } => M::Enum("B".into(), VK::Struct, vec![(Some("a".into()), x0.m())]),
            Self::C(x0, x1) => M::Enum("C".into(), VK::Tuple, vec![(None, x0.m())]),
        }
    }
    fn hidden(&self) -> Vec<u8> {
        match self {
            Self::B { a: x0, b: x1 } => vec![x1.0],
            Self::C(x0, x1) => vec![x1.0],
            _ => vec![],
        }
    }
    fn vals(n: usize, d: usize) -> Vec<Self> {
        let mut per: Vec<Vec<Self>> = vec![];
        per.push(vec![Self::A]);
        per.push({ let l0 = <i32 as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); combos(&[l0.len()], n.max(1)).into_iter().map(|c: Vec<usize>| Self::B { a: l0[c[0]].dup(), b: Hid(2) }).collect::<Vec<Self>>() });
        per.push({ let l0 = <i32 as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); combos(&[l0.len()], n.max(1)).into_iter().map(|c: Vec<usize>| Self::C(l0[c[0]].dup(), Hid(2))).collect::<Vec<Self>>() });
        interleave(per, n)
    }
    fn into_v(self) -> Option<Value> { Some(self.into()) }
    fn dup(&self) -> Self {
        match self {
            Self::A => Self::A,
            Self::B { a: x0, b: x1 } => Self::B { a: x0.dup(), b: Hid(x1.0) },
            Self::C(x0, x1) => Self::C(x0.dup(), Hid(x1.0)),
        }
    }
    fn dfmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        std::fmt::Debug::fmt(self, f)
    }
}

#[allow(dead_code)]
#[derive(Reflect, Clone, Debug, PartialEq, Eq, PartialOrd, Ord)]
pub struct S2m3 {
    #[reflect(skip)] pub a: Hid,
    #[reflect(skip)] pub b: Hid,
}
#[allow(unused_variables, unused_mut, clippy::all)]
impl Modeled for S2m3 {
    fn t() -> T {
        T::Struct { name: std::any::type_name::<Self>(), fields: vec![], meta: vec![], docs: vec![] }
    }
    fn m(&self) -> M {
        M::Struct(vec![])
    }
    fn hidden(&self) -> Vec<u8> {
        vec![self.a.0, self.b.0]
    }
    fn vals(n: usize, d: usize) -> Vec<Self> {
         combos(&[], n.max(1)).into_iter().map(|c: Vec<usize>| Self { a: Hid(1), b: Hid(2) }).collect::<Vec<Self>>()
    }
    fn into_v(self) -> Option<Value> { Some(self.into()) }
    fn dup(&self) -> Self {
        Self { a: Hid(self.a.0), b: Hid(self.b.0) }
    }
    fn dfmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        std::fmt::Debug::fmt(self, f)
    }
}

#[allow(dead_code)]
#[derive(Reflect, Clone, Debug, PartialEq, Eq, PartialOrd, Ord)]
pub struct T2m3(
    #[reflect(skip)] pub Hid,
    #[reflect(skip)] pub Hid,
);
#[allow(unused_variables, unused_mut, clippy::all)]
impl Modeled for T2m3 {
    fn t() -> T {
        T::TupleStruct { name: std::any::type_name::<Self>(), fields: vec![], meta: vec![], docs: vec![] }
    }
    fn m(&self) -> M {
        M::TupleStruct(vec![])
    }
    fn hidden(&self) -> Vec<u8> {
        vec![self.0.0, self.1.0]
    }
    fn vals(n: usize, d: usize) -> Vec<Self> {
         combos(&[], n.max(1)).into_iter().map(|c: Vec<usize>| Self(Hid(1), Hid(2))).collect::<Vec<Self>>()
    }
    fn into_v(self) -> Option<Value> { Some(self.into()) }
    fn dup(&self) -> Self {
        Self(Hid(self.0.0), Hid(self.1.0))
    }
    fn dfmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        std::fmt::Debug::fmt(self, f)
    }
}

#[allow(dead_code)]
#[derive(Reflect, Clone, Debug, PartialEq, Eq, PartialOrd, Ord)]
pub enum E2m3 {
    A,
    B {
        #[reflect(skip)] a: Hid,
        #[reflect(skip)] b: Hid,
    },
    C(
        #[reflect(skip)] Hid,
        #[reflect(skip)] Hid,
    ),
}
#[allow(unused_variables, unused_mut, clippy::all)]
impl Modeled for E2m3 {
    fn t() -> T {
        T::Enum { name: std::any::type_name::<Self>(), variants: vec![VariantT { name: "A", kind: VK::Unit, fields: vec![], meta: vec![], docs: vec![] }, VariantT { name: "B", kind: VK::Struct, fields: vec![], meta: vec![], docs: vec![] }, VariantT { name: "C", kind: VK::Tuple, fields: vec![], meta: vec![], docs: vec![] }], skipped: vec![], meta: vec![], docs: vec![] }
    }
    fn m(&self) -> M {
        match self {
            Self::A => M::Enum("A".into(), VK::Unit, vec![]),
            Self::B { a: x0, b: x1 } => M::Enum("B".into(), VK::Struct, vec![]),
            Self::C(x0, x1) => M::Enum("C".into(), VK::Tuple, vec![]),
        }
    }
    fn hidden(&self) -> Vec<u8> {
        match self {
            Self::B { a: x0, b: x1 } => vec![x0.0, x1.0],
            Self::C(x0, x1) => vec![x0.0, x1.0],
            _ => vec![],
        }
    }
    fn vals(n: usize, d: usize) -> Vec<Self> {
        let mut per: Vec<Vec<Self>> = vec![];
        per.push(vec![Self::A]);
        per.push({  combos(&[], n.max(1)).into_iter().map(|c: Vec<usize>| Self::B { a: Hid(1), b: Hid(2) }).collect::<Vec<Self>>() });
        per.push({  combos(&[], n.max(1)).into_iter().map(|c: Vec<usize>| Self::C(Hid(1), Hid(2))).collect::<Vec<Self>>() });
        interleave(per, n)
    }
    fn into_v(self) -> Option<Value> { Some(self.into()) }
    fn dup(&self) -> Self {
        match self {
            Self::A => Self::A,
            Self::B { a: x0, b: x1 } => Self::B { a: Hid(x0.0), b: Hid(x1.0) },
            Self::C(x0, x1) => Self::C(Hid(x0.0), Hid(x1.0)),
        }
    }
    fn dfmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        std::fmt::Debug::fmt(self, f)
    }
}

#[allow(dead_code)]
#[derive(Reflect, Clone, Debug, PartialEq, Eq, PartialOrd, Ord)]
pub struct S3m0 {
    pub a: i32,
    pub b: String,
    pub c: bool,
}
#[allow(unused_variables, unused_mut, clippy::all)]
impl Modeled for S3m0 {
    fn t() -> T {
        T::Struct { name: std::any::type_name::<Self>(), fields: vec![FieldT { name: Some("a"), ty: <i32 as Modeled>::t, with: None, meta: vec![], docs: vec![] }, FieldT { name: Some("b"), ty: <String as Modeled>::t, with: None, meta: vec![], docs: vec![] }, FieldT { name: Some("c"), ty: <bool as Modeled>::t, with: None, meta: vec![], docs: vec![] }], meta: vec![], docs: vec![] }
    }
    fn m(&self) -> M {
        M::Struct(vec![("a".to_owned(), self.a.m()), ("b".to_owned(), self.b.m()), ("c".to_owned(), self.c.m())])
    }
    fn hidden(&self) -> Vec<u8> {
        vec![]
    }
    fn vals(n: usize, d: usize) -> Vec<Self> {
        let l0 = <i32 as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); let l1 = <String as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); let l2 = <bool as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); combos(&[l0.len(), l1.len(), l2.len()], n.max(1)).into_iter().map(|c: Vec<usize>| Self { a: l0[c[0]].dup(), b: l1[c[1]].dup(), c: l2[c[2]].dup() }).collect::<Vec<Self>>()
    }
    fn into_v(self) -> Option<Value> { Some(self.into()) }
    fn dup(&self) -> Self {
        Self { a: self.a.dup(), b: self.b.dup(), c: self.c.dup() }
    }
    fn dfmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        std::fmt::Debug::fmt(self, f)
    }
}

#[allow(dead_code)]
#[derive(Reflect, Clone, Debug, PartialEq, Eq, PartialOrd, Ord)]
pub struct T3m0(
    pub i32,
    pub String,
    pub bool,
);
#[allow(unused_variables, unused_mut, clippy::all)]
impl Modeled for T3m0 {
    fn t() -> T {
        T::TupleStruct { name: std::any::type_name::<Self>(), fields: vec![FieldT { name: None, ty: <i32 as Modeled>::t, with: None, meta: vec![], docs: vec![] }, FieldT { name: None, ty: <String as Modeled>::t, with: None, meta: vec![], docs: vec![] }, FieldT { name: None, ty: <bool as Modeled>::t, with: None, meta: vec![], docs: vec![] }], meta: vec![], docs: vec![] }
    }
    fn m(&self) -> M {
        M::TupleStruct(vec![self.0.m(), self.1.m(), self.2.m()])
    }
    fn hidden(&self) -> Vec<u8> {
        vec![]
    }
    fn vals(n: usize, d: usize) -> Vec<Self> {
        let l0 = <i32 as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); let l1 = <String as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); let l2 = <bool as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); combos(&[l0.len(), l1.len(), l2.len()], n.max(1)).into_iter().map(|c: Vec<usize>| Self(l0[c[0]].dup(), l1[c[1]].dup(), l2[c[2]].dup())).collect::<Vec<Self>>()
    }
    fn into_v(self) -> Option<Value> { Some(self.into()) }
    fn dup(&self) -> Self {
        Self(self.0.dup(), self.1.dup(), self.2.dup())
    }
    fn dfmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        std::fmt::Debug::fmt(self, f)
    }
}

#[allow(dead_code)]
#[derive(Reflect, Clone, Debug, PartialEq, Eq, PartialOrd, Ord)]
pub enum E3m0 {
    A,
    B {
        a: i32,
        b: String,
        c: bool,
    },
    C(
        i32,
        String,
        bool,
    ),
}
#[allow(unused_variables, unused_mut, clippy::all)]
impl Modeled for E3m0 {
    fn t() -> T {
        T::Enum { name: std::any::type_name::<Self>(), variants: vec![VariantT { name: "A", kind: VK::Unit, fields: vec![], meta: vec![], docs: vec![] }, VariantT { name: "B", kind: VK::Struct, fields: vec![FieldT { name: Some("a"), ty: <i32 as Modeled>::t, with: None, meta: vec![], docs: vec![] }, FieldT { name: Some("b"), ty: <String as Modeled>::t, with: None, meta: vec![], docs: vec![] }, FieldT { name: Some("c"), ty: <bool as Modeled>::t, with: None, meta: vec![], docs: vec![] }], meta: vec![], docs: vec![] }, VariantT { name: "C", kind: VK::Tuple, fields: vec![FieldT { name: None, ty: <i32 as Modeled>::t, with: None, meta: vec![], docs: vec![] }, FieldT { name: None, ty: <String as Modeled>::t, with: None, meta: vec![], docs: vec![] }, FieldT { name: None, ty: <bool as Modeled>::t, with: None, meta: vec![], docs: vec![] }], meta: vec![], docs: vec![] }], skipped: vec![], meta: vec![], docs: vec![] }
    }
    fn m(&self) -> M {
        match self {
            Self::A => M::Enum("A".into(), VK::Unit, vec![]),
            Self::B { a: x0, b: x1, c: x2 } => M::Enum("B".into(), VK::Struct, vec![(Some("a".into()), x0.m()), (Some("b".into()), x1.m()), (Some("c".into()), x2.m())]),
            Self::C(x0, x1, x2) => M::Enum("C".into(), VK::Tuple, vec![(None, x0.m()), (None, x1.m()), (None, x2.m())]),
        }
    }
    fn hidden(&self) -> Vec<u8> {
        match self {
            _ => vec![],
        }
    }
    fn vals(n: usize, d: usize) -> Vec<Self> {
        let mut per: Vec<Vec<Self>> = vec![];
        per.push(vec![Self::A]);
        per.push({ let l0 = <i32 as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); let l1 = <String as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); let l2 = <bool as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); combos(&[l0.len(), l1.len(), l2.len()], n.max(1)).into_iter().map(|c: Vec<usize>| Self::B { a: l0[c[0]].dup(), b: l1[c[1]].dup(), c: l2[c[2]].dup() }).collect::<Vec<Self>>() });
        per.push({ let l0 = <i32 as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); let l1 = <String as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); let l2 = <bool as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); combos(&[l0.len(), l1.len(), l2.len()], n.max(1)).into_iter().map(|c: Vec<usize>| Self::C(l0[c[0]].dup(), l1[c[1]].dup(), l2[c[2]].dup())).collect::<Vec<Self>>() });
        interleave(per, n)
    }
    fn into_v(self) -> Option<Value> { Some(self.into()) }
    fn dup(&self) -> Self {
        match self {
            Self::A => Self::A,
            Self::B { a: x0, b: x1, c: x2 } => Self::B { a: x0.dup(), b: x1.dup(), c: x2.dup() },
            Self::C(x0, x1, x2) => Self::C(x0.dup(), x1.dup(), x2.dup()),
        }
    }
    fn dfmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        std::fmt::Debug::fmt(self, f)
    }
}

#[allow(dead_code)]
#[derive(Reflect, Clone, Debug, PartialEq, Eq, PartialOrd, Ord)]
pub struct S3m1 {
    #[reflect(skip)] pub a: Hid,
    pub b: String,
    pub c: bool,
}
#[allow(unused_variables, unused_mut, clippy::all)]
impl Modeled for S3m1 {
    fn t() -> T {
        T::Struct { name: std::any::type_name::<Self>(), fields: vec![FieldT { name: Some("b"), ty: <String as Modeled>::t, with: None, meta: vec![], docs: vec![] }, FieldT { name: Some("c"), ty: <bool as Modeled>::t, with: None, meta: vec![], docs: vec![] }], meta: vec![], docs: vec![] }
    }
    fn m(&self) -> M {
        M::Struct(vec![("b".to_owned(), self.b.m()), ("c".to_owned(), self.c.m())])
    }
    fn hidden(&self) -> Vec<u8> {
        vec![self.a.0]
    }
    fn vals(n: usize, d: usize) -> Vec<Self> {
        let l1 = <String as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); let l2 = <bool as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); combos(&[l1.len(), l2.len()], n.max(1)).into_iter().map(|c: Vec<usize>| Self { a: Hid(1), b: l1[c[0]].dup(), c: l2[c[1]].dup() }).collect::<Vec<Self>>()
    }
    fn into_v(self) -> Option<Value> { Some(self.into()) }
    fn dup(&self) -> Self {
        Self { a: Hid(self.a.0), b: self.b.dup(), c: self.c.dup() }
    }
    fn dfmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        std::fmt::Debug::fmt(self, f)
    }
}

#[allow(dead_code)]
#[derive(Reflect, Clone, Debug, PartialEq, Eq, PartialOrd, Ord)]
pub struct T3m1(
    #[reflect(skip)] pub Hid,
    pub String,
    pub bool,
);
#[allow(unused_variables, unused_mut, clippy::all)]
impl Modeled for T3m1 {
    fn t() -> T {
        T::TupleStruct { name: std::any::type_name::<Self>(), fields: vec![FieldT { name: None, ty: <String as Modeled>::t, with: None, meta: vec![], docs: vec![] }, FieldT { name: None, ty: <bool as Modeled>::t, with: None, meta: vec![], docs: vec![] }], meta: vec![], docs: vec![] }
    }
    fn m(&self) -> M {
        M::TupleStruct(vec![self.1.m(), self.2.m()])
    }
    fn hidden(&self) -> Vec<u8> {
        vec![self.0.0]
    }
    fn vals(n: usize, d: usize) -> Vec<Self> {
        let l1 = <String as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); let l2 = <bool as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); combos(&[l1.len(), l2.len()], n.max(1)).into_iter().map(|c: Vec<usize>| Self(Hid(1), l1[c[0]].dup(), l2[c[1]].dup())).collect::<Vec<Self>>()
    }
    fn into_v(self) -> Option<Value> { Some(self.into()) }
    fn dup(&self) -> Self {
        Self(Hid(self.0.0), self.1.dup(), self.2.dup())
    }
    fn dfmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        std::fmt::Debug::fmt(self, f)
    }
}

#[allow(dead_code)]
#[derive(Reflect, Clone, Debug, PartialEq, Eq, PartialOrd, Ord)]
pub enum E3m1 {
    A,
    B {
        #[reflect(skip)] a: Hid,
        b: String,
        c: bool,
    },
    C(
        #[reflect(skip)] Hid,
        String,
        bool,
    ),
}
#[allow(unused_variables, unused_mut, clippy::all)]
impl Modeled for E3m1 {
    fn t() -> T {
        T::Enum { name: std::any::type_name::<Self>(), variants: vec![VariantT { name: "A", kind: VK::Unit, fields: vec![], meta: vec![], docs: vec![] }, VariantT { name: "B", kind: VK::Struct, fields: vec![FieldT { name: Some("b"), ty: <String as Modeled>::t, with: None, meta: vec![], docs: vec![] }, FieldT { name: Some("c"), ty: <bool as Modeled>::t, with: None, meta: vec![], docs: vec![] }], meta: vec![], docs: vec![] }, VariantT { name: "C", kind: VK::Tuple, fields: vec![FieldT { name: None, ty: <String as Modeled>::t, with: None, meta: vec![], docs: vec![] }, FieldT { name: None, ty: <bool as Modeled>::t, with: None, meta: vec![], docs: vec![] }], meta: vec![], docs: vec![] }], skipped: vec![], meta: vec![], docs: vec![] }
    }
    fn m(&self) -> M {
        match self {
            Self::A => M::Enum("A".into(), VK::Unit, vec![]),
            Self::B { a: x0, b: x1, c: x2 } => M::Enum("B".into(), VK::Struct, vec![(Some("b".into()), x1.m()), (Some("c".into()), x2.m())]),
            Self::C(x0, x1, x2) => M::Enum("C".into(), VK::Tuple, vec![(None, x1.m()), (None, x2.m())]),
        }
    }
    fn hidden(&self) -> Vec<u8> {
        match self {
            Self::B { a: x0, b: x1, c: x2 } => vec![x0.0],
            Self::C(x0, x1, x2) => vec![x0.0],
            _ => vec![],
        }
    }
    fn vals(n: usize, d: usize) -> Vec<Self> {
        let mut per: Vec<Vec<Self>> = vec![];
        per.push(vec![Self::A]);
        per.push({ let l1 = <String as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); let l2 = <bool as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); combos(&[l1.len(), l2.len()], n.max(1)).into_iter().map(|c: Vec<usize>| Self::B { a: Hid(1), b: l1[c[0]].dup(), c: l2[c[1]].dup() }).collect::<Vec<Self>>() });
        per.push({ let l1 = <String as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); let l2 = <bool as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); combos(&[l1.len(), l2.len()], n.max(1)).into_iter().map(|c: Vec<usize>| Self::C(Hid(1), l1[c[0]].dup(), l2[c[1]].dup())).collect::<Vec<Self>>() });
        interleave(per, n)
    }
    fn into_v(self) -> Option<Value> { Some(self.into()) }
    fn dup(&self) -> Self {
        match self {
            Self::A => Self::A,
            Self::B { a: x0, b: x1, c: x2 } => Self::B { a: Hid(x0.0), b: x1.dup(), c: x2.dup() },
            Self::C(x0, x1, x2) => Self::C(Hid(x0.0), x1.dup(), x2.dup()),
        }
    }
    fn dfmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        std::fmt::Debug::fmt(self, f)
    }
}

#[allow(dead_code)]
#[derive(Reflect, Clone, Debug, PartialEq, Eq, PartialOrd, Ord)]
pub struct S3m2 {
    pub a: i32,
    #[reflect(skip)] pub b: Hid,
    pub c: bool,
}
#[allow(unused_variables, unused_mut, clippy::all)]
impl Modeled for S3m2 {
    fn t() -> T {
        T::Struct { name: std::any::type_name::<Self>(), fields: vec![FieldT { name: Some("a"), ty: <i32 as Modeled>::t, with: None, meta: vec![], docs: vec![] }, FieldT { name: Some("c"), ty: <bool as Modeled>::t, with: None, meta: vec![], docs: vec![] }], meta: vec![], docs: vec![] }
    }
    fn m(&self) -> M {
        M::Struct(vec![("a".to_owned(), self.a.m()), ("c".to_owned(), self.c.m())])
    }
    fn hidden(&self) -> Vec<u8> {
        vec![self.b.0]
    }
    fn vals(n: usize, d: usize) -> Vec<Self> {
        let l0 = <i32 as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); let l2 = <bool as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); combos(&[l0.len(), l2.len()], n.max(1)).into_iter().map(|c: Vec<usize>| Self { a: l0[c[0]].dup(), b: Hid(2), c: l2[c[1]].dup() }).collect::<Vec<Self>>()
    }
    fn into_v(self) -> Option<Value> { Some(self.into()) }
    fn dup(&self) -> Self {
        Self { a: self.a.dup(), b: Hid(self.b.0), c: self.c.dup() }
    }
    fn dfmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        std::fmt::Debug::fmt(self, f)
    }
}

#[allow(dead_code)]
#[derive(Reflect, Clone, Debug, PartialEq, Eq, PartialOrd, Ord)]
pub struct T3m2(
    pub i32,
    #[reflect(skip)] pub Hid,
    pub bool,
);
#[allow(unused_variables, unused_mut, clippy::all)]
impl Modeled for T3m2 {
    fn t() -> T {
        T::TupleStruct { name: std::any::type_name::<Self>(), fields: vec![FieldT { name: None, ty: <i32 as Modeled>::t, with: None, meta: vec![], docs: vec![] }, FieldT { name: None, ty: <bool as Modeled>::t, with: None, meta: vec![], docs: vec![] }], meta: vec![], docs: vec![] }
    }
    fn m(&self) -> M {
        M::TupleStruct(vec![self.0.m(), self.2.m()])
    }
    fn hidden(&self) -> Vec<u8> {
        vec![self.1.0]
    }
    fn vals(n: usize, d: usize) -> Vec<Self> {
        let l0 = <i32 as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); let l2 = <bool as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); combos(&[l0.len(), l2.len()], n.max(1)).into_iter().map(|c: Vec<usize>| Self(l0[c[0]].dup(), Hid(2), l2[c[1]].dup())).collect::<Vec<Self>>()
    }
    fn into_v(self) -> Option<Value> { Some(self.into()) }
    fn dup(&self) -> Self {
        Self(self.0.dup(), Hid(self.1.0), self.2.dup())
    }
    fn dfmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        std::fmt::Debug::fmt(self, f)
    }
}

#[allow(dead_code)]
#[derive(Reflect, Clone, Debug, PartialEq, Eq, PartialOrd, Ord)]
pub enum E3m2 {
    A,
    B {
        a: i32,
        #[reflect(skip)] b: Hid,
        c: bool,
    },
    C(
        i32,
        #[reflect(skip)] Hid,
        bool,
    ),
}
#[allow(unused_variables, unused_mut, clippy::all)]
impl Modeled for E3m2 {
    fn t() -> T {
        T::Enum { name: std::any::type_name::<Self>(), variants: vec![VariantT { name: "A", kind: VK::Unit, fields: vec![], meta: vec![], docs: vec![] }, VariantT { name: "B", kind: VK::Struct, fields: vec![FieldT { name: Some("a"), ty: <i32 as Modeled>::t, with: None, meta: vec![], docs: vec![] }, FieldT { name: Some("c"), ty: <bool as Modeled>::t, with: None, meta: vec![], docs: vec![] }], meta: vec![], docs: vec![] }, VariantT { name: "C", kind: VK::Tuple, fields: vec![FieldT { name: None, ty: <i32 as Modeled>::t, with: None, meta: vec![], docs: vec![] }, FieldT { name: None, ty: <bool as Modeled>::t, with: None, meta: vec![], docs: vec![] }], meta: vec![], docs: vec![] }], skipped: vec![], meta: vec![], docs: vec![] }
    }
    fn m(&self) -> M {
        match self {
            Self::A => M::Enum("A".into(), VK::Unit, vec![]),
            Self::B { a: x0, b: x1, c: x2 } => M::Enum("B".into(), VK::Struct, vec![(Some("a".into()), x0.m()), (Some("c".into()), x2.m())]),
            Self::C(x0, x1, x2) => M::Enum("C".into(), VK::Tuple, vec![(None, x0.m()), (None, x2.m())]),
        }
    }
    fn hidden(&self) -> Vec<u8> {
        match self {
            Self::B { a: x0, b: x1, c: x2 } => vec![x1.0],
            Self::C(x0, x1, x2) => vec![x1.0],
            _ => vec![],
        }
    }
    fn vals(n: usize, d: usize) -> Vec<Self> {
        let mut per: Vec<Vec<Self>> = vec![];
        per.push(vec![Self::A]);
        per.push({ let l0 = <i32 as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); let l2 = <bool as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); combos(&[l0.len(), l2.len()], n.max(1)).into_iter().map(|c: Vec<usize>| Self::B { a: l0[c[0]].dup(), b: Hid(2), c: l2[c[1]].dup() }).collect::<Vec<Self>>() });
        per.push({ let l0 = <i32 as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); let l2 = <bool as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); combos(&[l0.len(), l2.len()], n.max(1)).into_iter().map(|c: Vec<usize>| Self::C(l0[c[0]].dup(), Hid(2), l2[c[1]].dup())).collect::<Vec<Self>>() });
        interleave(per, n)
    }
    fn into_v(self) -> Option<Value> { Some(self.into()) }
    fn dup(&self) -> Self {
        match self {
            Self::A => Self::A,
            Self::B { a: x0, b: x1, c: x2 } => Self::B { a: x0.dup(), b: Hid(x1.0), c: x2.dup() },
            Self::C(x0, x1, x2) => Self::C(x0.dup(), Hid(x1.0), x2.dup()),
        }
    }
    fn dfmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        std::fmt::Debug::fmt(self, f)
    }
}

#[allow(dead_code)]
#[derive(Reflect, Clone, Debug, PartialEq, Eq, PartialOrd, Ord)]
pub struct S3m3 {
    #[reflect(skip)] pub a: Hid,
    #[reflect(skip)] pub b: Hid,
    pub c: bool,
}
#[allow(unused_variables, unused_mut, clippy::all)]
impl Modeled for S3m3 {
    fn t() -> T {
        T::Struct { name: std::any::type_name::<Self>(), fields: vec![FieldT { name: Some("c"), ty: <bool as Modeled>::t, with: None, meta: vec![], docs: vec![] }], meta: vec![], docs: vec![] }
    }
    fn m(&self) -> M {
        M::Struct(vec![("c".to_owned(), self.c.m())])
    }
    fn hidden(&self) -> Vec<u8> {
        vec![self.a.0, self.b.0]
    }
    fn vals(n: usize, d: usize) -> Vec<Self> {
        let l2 = <bool as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); combos(&[l2.len()], n.max(1)).into_iter().map(|c: Vec<usize>| Self { a: Hid(1), b: Hid(2), c: l2[c[0]].dup() }).collect::<Vec<Self>>()
    }
    fn into_v(self) -> Option<Value> { Some(self.into()) }
    fn dup(&self) -> Self {
        Self { a: Hid(self.a.0), b: Hid(self.b.0), c: self.c.dup() }
    }
    fn dfmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        std::fmt::Debug::fmt(self, f)
    }
}

#[allow(dead_code)]
#[derive(Reflect, Clone, Debug, PartialEq, Eq, PartialOrd, Ord)]
pub struct T3m3(
    #[reflect(skip)] pub Hid,
    #[reflect(skip)] pub Hid,
    pub bool,
);
#[allow(unused_variables, unused_mut, clippy::all)]
impl Modeled for T3m3 {
    fn t() -> T {
        T::TupleStruct { name: std::any::type_name::<Self>(), fields: vec![FieldT { name: None, ty: <bool as Modeled>::t, with: None, meta: vec![], docs: vec![] }], meta: vec![], docs: vec![] }
    }
    fn m(&self) -> M {
        M::TupleStruct(vec![self.2.m()])
    }
    fn hidden(&self) -> Vec<u8> {
        vec![self.0.0, self.1.0]
    }
    fn vals(n: usize, d: usize) -> Vec<Self> {
        let l2 = <bool as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); combos(&[l2.len()], n.max(1)).into_iter().map(|c: Vec<usize>| Self(Hid(1), Hid(2), l2[c[0]].dup())).collect::<Vec<Self>>()
    }
    fn into_v(self) -> Option<Value> { Some(self.into()) }
    fn dup(&self) -> Self {
        Self(Hid(self.0.0), Hid(self.1.0), self.2.dup())
    }
    fn dfmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        std::fmt::Debug::fmt(self, f)
    }
}

#[allow(dead_code)]
#[derive(Reflect, Clone, Debug, PartialEq, Eq, PartialOrd, Ord)]
pub enum E3m3 {
    A,
    B {
        #[reflect(skip)] a: Hid,
        #[reflect(skip)] b: Hid,
        c: bool,
    },
    C(
        #[reflect(skip)] Hid,
        #[reflect(skip)] Hid,
        bool,
    ),
}
#[allow(unused_variables, unused_mut, clippy::all)]
impl Modeled for E3m3 {
    fn t() -> T {
        T::Enum { name: std::any::type_name::<Self>(), variants: vec![VariantT { name: "A", kind: VK::Unit, fields: vec![], meta: vec![], docs: vec![] }, VariantT { name: "B", kind: VK::Struct, fields: vec![FieldT { name: Some("c"), ty: <bool as Modeled>::t, with: None, meta: vec![], docs: vec![] }], meta: vec![], docs: vec![] }, VariantT { name: "C", kind: VK::Tuple, fields: vec![FieldT { name: None, ty: <bool as Modeled>::t, with: None, meta: vec![], docs: vec![] }], meta: vec![], docs: vec![] }], skipped: vec![], meta: vec![], docs: vec![] }
    }
    fn m(&self) -> M {
        match self {
            Self::A => M::Enum("A".into(), VK::Unit, vec![]),
            Self::B { a: x0, b: x1, c: x2 } => M::Enum("B".into(), VK::Struct, vec![(Some("c".into()), x2.m())]),
            Self::C(x0, x1, x2) => M::Enum("C".into(), VK::Tuple, vec![(None, x2.m())]),
        }
    }
    fn hidden(&self) -> Vec<u8> {
        match self {
            Self::B { a: x0, b: x1, c: x2 } => vec![x0.0, x1.0],
            Self::C(x0, x1, x2) => vec![x0.0, x1.0],
            _ => vec![],
        }
    }
    fn vals(n: usize, d: usize) -> Vec<Self> {
        let mut per: Vec<Vec<Self>> = vec![];
        per.push(vec![Self::A]);
        per.push({ let l2 = <bool as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); combos(&[l2.len()], n.max(1)).into_iter().map(|c: Vec<usize>| Self::B { a: Hid(1), b: Hid(2), c: l2[c[0]].dup() }).collect::<Vec<Self>>() });
        per.push({ let l2 = <bool as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); combos(&[l2.len()], n.max(1)).into_iter().map(|c: Vec<usize>| Self::C(Hid(1), Hid(2), l2[c[0]].dup())).collect::<Vec<Self>>() });
        interleave(per, n)
    }
    fn into_v(self) -> Option<Value> { Some(self.into()) }
    fn dup(&self) -> Self {
        match self {
            Self::A => Self::A,
            Self::B { a: x0, b: x1, c: x2 } => Self::B { a: Hid(x0.0), b: Hid(x1.0), c: x2.dup() },
            Self::C(x0, x1, x2) => Self::C(Hid(x0.0), Hid(x1.0), x2.dup()),
        }
    }
    fn dfmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        std::fmt::Debug::fmt(self, f)
    }
}

#[allow(dead_code)]
#[derive(Reflect, Clone, Debug, PartialEq, Eq, PartialOrd, Ord)]
pub struct S3m4 {
    pub a: i32,
    pub b: String,
    #[reflect(skip)] pub c: Hid,
}
#[allow(unused_variables, unused_mut, clippy::all)]
impl Modeled for S3m4 {
    fn t() -> T {
        T::Struct { name: std::any::type_name::<Self>(), fields: vec![FieldT { name: Some("a"), ty: <i32 as Modeled>::t, with: None, meta: vec![], docs: vec![] }, FieldT { name: Some("b"), ty: <String as Modeled>::t, with: None, meta: vec![], docs: vec![] }], meta: vec![], docs: vec![] }
    }
    fn m(&self) -> M {
        M::Struct(vec![("a".to_owned(), self.a.m()), ("b".to_owned(), self.b.m())])
    }
    fn hidden(&self) -> Vec<u8> {
        vec![self.c.0]
    }
    fn vals(n: usize, d: usize) -> Vec<Self> {
        let l0 = <i32 as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); let l1 = <String as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); combos(&[l0.len(), l1.len()], n.max(1)).into_iter().map(|c: Vec<usize>| Self { a: l0[c[0]].dup(), b: l1[c[1]].dup(), c: Hid(3) }).collect::<Vec<Self>>()
    }
    fn into_v(self) -> Option<Value> { Some(self.into()) }
    fn dup(&self) -> Self {
        Self { a: self.a.dup(), b: self.b.dup(), c: Hid(self.c.0) }
    }
    fn dfmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        std::fmt::Debug::fmt(self, f)
    }
}

#[allow(dead_code)]
#[derive(Reflect, Clone, Debug, PartialEq, Eq, PartialOrd, Ord)]
pub struct T3m4(
    pub i32,
    pub String,
    #[reflect(skip)] pub Hid,
);
#[allow(unused_variables, unused_mut, clippy::all)]
impl Modeled for T3m4 {
    fn t() -> T {
        T::TupleStruct { name: std::any::type_name::<Self>(), fields: vec![FieldT { name: None, ty: <i32 as Modeled>::t, with: None, meta: vec![], docs: vec![] }, FieldT { name: None, ty: <String as Modeled>::t, with: None, meta: vec![], docs: vec![] }], meta: vec![], docs: vec![] }
    }
    fn m(&self) -> M {
        M::TupleStruct(vec![self.0.m(), self.1.m()])
    }
    fn hidden(&self) -> Vec<u8> {
        vec![self.2.0]
    }
    fn vals(n: usize, d: usize) -> Vec<Self> {
        let l0 = <i32 as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); let l1 = <String as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); combos(&[l0.len(), l1.len()], n.max(1)).into_iter().map(|c: Vec<usize>| Self(l0[c[0]].dup(), l1[c[1]].dup(), Hid(3))).collect::<Vec<Self>>()
    }
    fn into_v(self) -> Option<Value> { Some(self.into()) }
    fn dup(&self) -> Self {
        Self(self.0.dup(), self.1.dup(), Hid(self.2.0))
    }
    fn dfmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        std::fmt::Debug::fmt(self, f)
    }
}

#[allow(dead_code)]
#[derive(Reflect, Clone, Debug, PartialEq, Eq, PartialOrd, Ord)]
pub enum E3m4 {
    A,
    B {
        a: i32,
        b: String,
        #[reflect(skip)] c: Hid,
    },
    C(
        i32,
        String,
        #[reflect(skip)] Hid,
    ),
}
#[allow(unused_variables, unused_mut, clippy::all)]
impl Modeled for E3m4 {
    fn t() -> T {
        T::Enum { name: std::any::type_name::<Self>(), variants: vec![VariantT { name: "A", kind: VK::Unit, fields: vec![], meta: vec![], docs: vec![] }, VariantT { name: "B", kind: VK::Struct, fields: vec![FieldT { name: Some("a"), ty: <i32 as Modeled>::t, with: None, meta: vec![], docs: vec![] }, FieldT { name: Some("b"), ty: <String as Modeled>::t, with: None, meta: vec![], docs: vec![] }], meta: vec![], docs: vec![] }, VariantT { name: "C", kind: VK::Tuple, fields: vec![FieldT { name: None, ty: <i32 as Modeled>::t, with: None, meta: vec![], docs: vec![] }, FieldT { name: None, ty: <String as Modeled>::t, with: None, meta: vec![], docs: vec![] }], meta: vec![], docs: vec![] }], skipped: vec![], meta: vec![], docs: vec![] }
    }
    fn m(&self) -> M {
        match self {
            Self::A => M::Enum("A".into(), VK::Unit, vec![]),
            Self::B { a: x0, b: x1, c: x2 } => M::Enum("B".into(), VK::Struct, vec![(Some("a".into()), x0.m()), (Some("b".into()), x1.m())]),
            Self::C(x0, x1, x2) => M::Enum("C".into(), VK::Tuple, vec![(None, x0.m()), (None, x1.m())]),
        }
    }
    fn hidden(&self) -> Vec<u8> {
        match self {
            Self::B { a: x0, b: x1, c: x2 } => vec![x2.0],
            Self::C(x0, x1, x2) => vec![x2.0],
            _ => vec![],
        }
    }
    fn vals(n: usize, d: usize) -> Vec<Self> {
        let mut per: Vec<Vec<Self>> = vec![];
        per.push(vec![Self::A]);
        per.push({ let l0 = <i32 as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); let l1 = <String as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); combos(&[l0.len(), l1.len()], n.max(1)).into_iter().map(|c: Vec<usize>| Self::B { a: l0[c[0]].dup(), b: l1[c[1]].dup(), c: Hid(3) }).collect::<Vec<Self>>() });
        per.push({ let l0 = <i32 as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); let l1 = <String as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); combos(&[l0.len(), l1.len()], n.max(1)).into_iter().map(|c: Vec<usize>| Self::C(l0[c[0]].dup(), l1[c[1]].dup(), Hid(3))).collect::<Vec<Self>>() });
        interleave(per, n)
    }
    fn into_v(self) -> Option<Value> { Some(self.into()) }
    fn dup(&self) -> Self {
        match self {
            Self::A => Self::A,
            Self::B { a: x0, b: x1, c: x2 } => Self::B { a: x0.dup(), b: x1.dup(), c: Hid(x2.0) },
            Self::C(x0, x1, x2) => Self::C(x0.dup(), x1.dup(), Hid(x2.0)),
        }
    }
    fn dfmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        std::fmt::Debug::fmt(self, f)
    }
}

#[allow(dead_code)]
#[derive(Reflect, Clone, Debug, PartialEq, Eq, PartialOrd, Ord)]
pub struct S3m5 {
    #[reflect(skip)] pub a: Hid,
    pub b: String,
    #[reflect(skip)] pub c: Hid,
}
#[allow(unused_variables, unused_mut, clippy::all)]
impl Modeled for S3m5 {
    fn t() -> T {
        T::Struct { name: std::any::type_name::<Self>(), fields: vec![FieldT { name: Some("b"), ty: <String as Modeled>::t, with: None, meta: vec![], docs: vec![] }], meta: vec![], docs: vec![] }
    }
    fn m(&self) -> M {
        M::Struct(vec![("b".to_owned(), self.b.m())])
    }
    fn hidden(&self) -> Vec<u8> {
        vec![self.a.0, self.c.0]
    }
    fn vals(n: usize, d: usize) -> Vec<Self> {
        let l1 = <String as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); combos(&[l1.len()], n.max(1)).into_iter().map(|c: Vec<usize>| Self { a: Hid(1), b: l1[c[0]].dup(), c: Hid(3) }).collect::<Vec<Self>>()
    }
    fn into_v(self) -> Option<Value> { Some(self.into()) }
    fn dup(&self) -> Self {
        Self { a: Hid(self.a.0), b: self.b.dup(), c: Hid(self.c.0) }
    }
    fn dfmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        std::fmt::Debug::fmt(self, f)
    }
}

#[allow(dead_code)]
#[derive(Reflect, Clone, Debug, PartialEq, Eq, PartialOrd, Ord)]
pub struct T3m5(
    #[reflect(skip)] pub Hid,
    pub String,
    #[reflect(skip)] pub Hid,
);
#[allow(unused_variables, unused_mut, clippy::all)]
impl Modeled for T3m5 {
    fn t() -> T {
        T::TupleStruct { name: std::any::type_name::<Self>(), fields: vec![FieldT { name: None, ty: <String as Modeled>::t, with: None, meta: vec![], docs: vec![] }], meta: vec![], docs: vec![] }
    }
    fn m(&self) -> M {
        M::TupleStruct(vec![self.1.m()])
    }
    fn hidden(&self) -> Vec<u8> {
        vec![self.0.0, self.2.0]
    }
    fn vals(n: usize, d: usize) -> Vec<Self> {
        let l1 = <String as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); combos(&[l1.len()], n.max(1)).into_iter().map(|c: Vec<usize>| Self(Hid(1), l1[c[0]].dup(), Hid(3))).collect::<Vec<Self>>()
    }
    fn into_v(self) -> Option<Value> { Some(self.into()) }
    fn dup(&self) -> Self {
        Self(Hid(self.0.0), self.1.dup(), Hid(self.2.0))
    }
    fn dfmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        std::fmt::Debug::fmt(self, f)
    }
}

#[allow(dead_code)]
#[derive(Reflect, Clone, Debug, PartialEq, Eq, PartialOrd, Ord)]
pub enum E3m5 {
    A,
    B {
        #[reflect(skip)] a: Hid,
        b: String,
        #[reflect(skip)] c: Hid,
    },
    C(
        #[reflect(skip)] Hid,
        String,
        #[reflect(skip)] Hid,
    ),
}
#[allow(unused_variables, unused_mut, clippy::all)]
impl Modeled for E3m5 {
    fn t() -> T {
        T::Enum { name: std::any::type_name::<Self>(), variants: vec![VariantT { name: "A", kind: VK::Unit, fields: vec![], meta: vec![], docs: vec![] }, VariantT { name: "B", kind: VK::Struct, fields: vec![FieldT { name: Some("b"), ty: <String as Modeled>::t, with: None, meta: vec![], docs: vec![] }], meta: vec![], docs: vec![] }, VariantT { name: "C", kind: VK::Tuple, fields: vec![FieldT { name: None, ty: <String as Modeled>::t, with: None, meta: vec![], docs: vec![] }], meta: vec![], docs: vec![] }], skipped: vec![], meta: vec![], docs: vec![] }
    }
    fn m(&self) -> M {
        match self {
            Self::A => M::Enum("A".into(), VK::Unit, vec![]),
            Self::B { a: x0, b: x1, c: x2 } => M::Enum("B".into(), VK::Struct, vec![(Some("b".into()), x1.m())]),
            Self::C(x0, x1, x2) => M::Enum("C".into(), VK::Tuple, vec![(None, x1.m())]),
        }
    }
    fn hidden(&self) -> Vec<u8> {
        match self {
            Self::B { a: x0, b: x1, c: x2 } => vec![x0.0, x2.0],
            Self::C(x0, x1, x2) => vec![x0.0, x2.0],
            _ => vec![],
        }
    }
    fn vals(n: usize, d: usize) -> Vec<Self> {
        let mut per: Vec<Vec<Self>> = vec![];
        per.push(vec![Self::A]);
        per.push({ let l1 = <String as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); combos(&[l1.len()], n.max(1)).into_iter().map(|c: Vec<usize>| Self::B { a: Hid(1), b: l1[c[0]].dup(), c: Hid(3) }).collect::<Vec<Self>>() });
        per.push({ let l1 = <String as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); combos(&[l1.len()], n.max(1)).into_iter().map(|c: Vec<usize>| Self::C(Hid(1), l1[c[0]].dup(), Hid(3))).collect::<Vec<Self>>() });
        interleave(per, n)
    }
    fn into_v(self) -> Option<Value> { Some(self.into()) }
    fn dup(&self) -> Self {
        match self {
            Self::A => Self::A,
            Self::B { a: x0, b: x1, c: x2 } => Self::B { a: Hid(x0.0), b: x1.dup(), c: Hid(x2.0) },
            Self::C(x0, x1, x2) => Self::C(Hid(x0.0), x1.dup(), Hid(x2.0)),
        }
    }
    fn dfmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        std::fmt::Debug::fmt(self, f)
    }
}

#[allow(dead_code)]
#[derive(Reflect, Clone, Debug, PartialEq, Eq, PartialOrd, Ord)]
pub struct S3m6 {
    pub a: i32,
    #[reflect(skip)] pub b: Hid,
    #[reflect(skip)] pub c: Hid,
}
#[allow(unused_variables, unused_mut, clippy::all)]
impl Modeled for S3m6 {
    fn t() -> T {
        T::Struct { name: std::any::type_name::<Self>(), fields: vec![FieldT { name: Some("a"), ty: <i32 as Modeled>::t, with: None, meta: vec![], docs: vec![] }], meta: vec![], docs: vec![] }
    }
    fn m(&self) -> M {
        M::Struct(vec![("a".to_owned(), self.a.m())])
    }
    fn hidden(&self) -> Vec<u8> {
        vec![self.b.0, self.c.0]
    }
    fn vals(n: usize, d: usize) -> Vec<Self> {
        let l0 = <i32 as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); combos(&[l0.len()], n.max(1)).into_iter().map(|c: Vec<usize>| Self { a: l0[c[0]].dup(), b: Hid(2), c: Hid(3) }).collect::<Vec<Self>>()
    }
    fn into_v(self) -> Option<Value> { Some(self.into()) }
    fn dup(&self) -> Self {
        Self { a: self.a.dup(), b: Hid(self.b.0), c: Hid(self.c.0) }
    }
    fn dfmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        std::fmt::Debug::fmt(self, f)
    }
}

#[allow(dead_code)]
#[derive(Reflect, Clone, Debug, PartialEq, Eq, PartialOrd, Ord)]
pub struct T3m6(
    pub i32,
    #[reflect(skip)] pub Hid,
    #[reflect(skip)] pub Hid,
);
#[allow(unused_variables, unused_mut, clippy::all)]
impl Modeled for T3m6 {
    fn t() -> T {
        T::TupleStruct { name: std::any::type_name::<Self>(), fields: vec![FieldT { name: None, ty: <i32 as Modeled>::t, with: None, meta: vec![], docs: vec![] }], meta: vec![], docs: vec![] }
    }
    fn m(&self) -> M {
        M::TupleStruct(vec![self.0.m()])
    }
    fn hidden(&self) -> Vec<u8> {
        vec![self.1.0, self.2.0]
    }
    fn vals(n: usize, d: usize) -> Vec<Self> {
        let l0 = <i32 as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); combos(&[l0.len()], n.max(1)).into_iter().map(|c: Vec<usize>| Self(l0[c[0]].dup(), Hid(2), Hid(3))).collect::<Vec<Self>>()
    }
    fn into_v(self) -> Option<Value> { Some(self.into()) }
    fn dup(&self) -> Self {
        Self(self.0.dup(), Hid(self.1.0), Hid(self.2.0))
    }
    fn dfmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        std::fmt::Debug::fmt(self, f)
    }
}

#[allow(dead_code)]
#[derive(Reflect, Clone, Debug, PartialEq, Eq, PartialOrd, Ord)]
pub enum E3m6 {
    A,
    B {
        a: i32,
        #[reflect(skip)] b: Hid,
        #[reflect(skip)] c: Hid,
    },
    C(
        i32,
        #[reflect(skip)] Hid,
        #[reflect(skip)] Hid,
    ),
}
#[allow(unused_variables, unused_mut, clippy::all)]
impl Modeled for E3m6 {
    fn t() -> T {
        T::Enum { name: std::any::type_name::<Self>(), variants: vec![VariantT { name: "A", kind: VK::Unit, fields: vec![], meta: vec![], docs: vec![] }, VariantT { name: "B", kind: VK::Struct, fields: vec![FieldT { name: Some("a"), ty: <i32 as Modeled>::t, with: None, meta: vec![], docs: vec![] }], meta: vec![], docs: vec![] }, VariantT { name: "C", kind: VK::Tuple, fields: vec![FieldT { name: None, ty: <i32 as Modeled>::t, with: None, meta: vec![], docs: vec![] }], meta: vec![], docs: vec![] }], skipped: vec![], meta: vec![], docs: vec![] }
    }
    fn m(&self) -> M {
        match self {
            Self::A => M::Enum("A".into(), VK::Unit, vec![]),
            Self::B { a: x0, b: x1, c: x2 } => M::Enum("B".into(), VK::Struct, vec![(Some("a".into()), x0.m())]),
            Self::C(x0, x1, x2) => M::Enum("C".into(), VK::Tuple, vec![(None, x0.m())]),
        }
    }
    fn hidden(&self) -> Vec<u8> {
        match self {
            Self::B { a: x0, b: x1, c: x2 } => vec![x1.0, x2.0],
            Self::C(x0, x1, x2) => vec![x1.0, x2.0],
            _ => vec![],
        }
    }
    fn vals(n: usize, d: usize) -> Vec<Self> {
        let mut per: Vec<Vec<Self>> = vec![];
        per.push(vec![Self::A]);
        per.push({ let l0 = <i32 as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); combos(&[l0.len()], n.max(1)).into_iter().map(|c: Vec<usize>| Self::B { a: l0[c[0]].dup(), b: Hid(2), c: Hid(3) }).collect::<Vec<Self>>() });
        per.push({ let l0 = <i32 as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); combos(&[l0.len()], n.max(1)).into_iter().map(|c: Vec<usize>| Self::C(l0[c[0]].dup(), Hid(2), Hid(3))).collect::<Vec<Self>>() });
        interleave(per, n)
    }
    fn into_v(self) -> Option<Value> { Some(self.into()) }
    fn dup(&self) -> Self {
        match self {
            Self::A => Self::A,
            Self::B { a: x0, b: x1, c: x2 } => Self::B { a: x0.dup(), b: Hid(x1.0), c: Hid(x2.0) },
            Self::C(x0, x1, x2) => Self::C(x0.dup(), Hid(x1.0), Hid(x2.0)),
        }
    }
    fn dfmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        std::fmt::Debug::fmt(self, f)
    }
}

#[allow(dead_code)]
#[derive(Reflect, Clone, Debug, PartialEq, Eq, PartialOrd, Ord)]
pub struct S3m7 {
    #[reflect(skip)] pub a: Hid,
    #[reflect(skip)] pub b: Hid,
    #[reflect(skip)] pub c: Hid,
}
#[allow(unused_variables, unused_mut, clippy::all)]
impl Modeled for S3m7 {
    fn t() -> T {
        T::Struct { name: std::any::type_name::<Self>(), fields: vec![], meta: vec![], docs: vec![] }
    }
    fn m(&self) -> M {
        M::Struct(vec![])
    }
    fn hidden(&self) -> Vec<u8> {
        vec![self.a.0, self.b.0, self.c.0]
    }
    fn vals(n: usize, d: usize) -> Vec<Self> {
         combos(&[], n.max(1)).into_iter().map(|c: Vec<usize>| Self { a: Hid(1), b: Hid(2), c: Hid(3) }).collect::<Vec<Self>>()
    }
    fn into_v(self) -> Option<Value> { Some(self.into()) }
    fn dup(&self) -> Self {
        Self { a: Hid(self.a.0), b: Hid(self.b.0), c: Hid(self.c.0) }
    }
    fn dfmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        std::fmt::Debug::fmt(self, f)
    }
}

#[allow(dead_code)]
#[derive(Reflect, Clone, Debug, PartialEq, Eq, PartialOrd, Ord)]
pub struct T3m7(
    #[reflect(skip)] pub Hid,
    #[reflect(skip)] pub Hid,
    #[reflect(skip)] pub Hid,
);
#[allow(unused_variables, unused_mut, clippy::all)]
impl Modeled for T3m7 {
    fn t() -> T {
        T::TupleStruct { name: std::any::type_name::<Self>(), fields: vec![], meta: vec![], docs: vec![] }
    }
    fn m(&self) -> M {
        M::TupleStruct(vec![])
    }
    fn hidden(&self) -> Vec<u8> {
        vec![self.0.0, self.1.0, self.2.0]
    }
    fn vals(n: usize, d: usize) -> Vec<Self> {
         combos(&[], n.max(1)).into_iter().map(|c: Vec<usize>| Self(Hid(1), Hid(2), Hid(3))).collect::<Vec<Self>>()
    }
    fn into_v(self) -> Option<Value> { Some(self.into()) }
    fn dup(&self) -> Self {
        Self(Hid(self.0.0), Hid(self.1.0), Hid(self.2.0))
    }
    fn dfmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        std::fmt::Debug::fmt(self, f)
    }
}

#[allow(dead_code)]
#[derive(Reflect, Clone, Debug, PartialEq, Eq, PartialOrd, Ord)]
pub enum E3m7 {
    A,
    B {
        #[reflect(skip)] a: Hid,
        #[reflect(skip)] b: Hid,
        #[reflect(skip)] c: Hid,
    },
    C(
        #[reflect(skip)] Hid,
        #[reflect(skip)] Hid,
        #[reflect(skip)] Hid,
    ),
}
#[allow(unused_variables, unused_mut, clippy::all)]
impl Modeled for E3m7 {
    fn t() -> T {
        T::Enum { name: std::any::type_name::<Self>(), variants: vec![VariantT { name: "A", kind: VK::Unit, fields: vec![], meta: vec![], docs: vec![] }, VariantT { name: "B", kind: VK::Struct, fields: vec![], meta: vec![], docs: vec![] }, VariantT { name: "C", kind: VK::Tuple, fields: vec![], meta: vec![], docs: vec![] }], skipped: vec![], meta: vec![], docs: vec![] }
    }
    fn m(&self) -> M {
        match self {
            Self::A => M::Enum("A".into(), VK::Unit, vec![]),
            Self::B { a: x0, b: x1, c: x2 } => M::Enum("B".into(), VK::Struct, vec![]),
            Self::C(x0, x1, x2) => M::Enum("C".into(), VK::Tuple, vec![]),
        }
    }
    fn hidden(&self) -> Vec<u8> {
        match self {
            Self::B { a: x0, b: x1, c: x2 } => vec![x0.0, x1.0, x2.0],
            Self::C(x0, x1, x2) => vec![x0.0, x1.0, x2.0],
            _ => vec![],
        }
    }
    fn vals(n: usize, d: usize) -> Vec<Self> {
        let mut per: Vec<Vec<Self>> = vec![];
        per.push(vec![Self::A]);
        per.push({  combos(&[], n.max(1)).into_iter().map(|c: Vec<usize>| Self::B { a: Hid(1), b: Hid(2), c: Hid(3) }).collect::<Vec<Self>>() });
        per.push({  combos(&[], n.max(1)).into_iter().map(|c: Vec<usize>| Self::C(Hid(1), Hid(2), Hid(3))).collect::<Vec<Self>>() });
        interleave(per, n)
    }
    fn into_v(self) -> Option<Value> { Some(self.into()) }
    fn dup(&self) -> Self {
        match self {
            Self::A => Self::A,
            Self::B { a: x0, b: x1, c: x2 } => Self::B { a: Hid(x0.0), b: Hid(x1.0), c: Hid(x2.0) },
            Self::C(x0, x1, x2) => Self::C(Hid(x0.0), Hid(x1.0), Hid(x2.0)),
        }
    }
    fn dfmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        std::fmt::Debug::fmt(self, f)
    }
}

#[allow(dead_code)]
#[derive(Reflect, Clone, Debug, PartialEq, Eq, PartialOrd, Ord)]
pub struct Unit;
#[allow(unused_variables, unused_mut, clippy::all)]
impl Modeled for Unit {
    fn t() -> T {
        T::Struct { name: std::any::type_name::<Self>(), fields: vec![], meta: vec![], docs: vec![] }
    }
    fn m(&self) -> M {
        M::Struct(vec![])
    }
    fn hidden(&self) -> Vec<u8> {
        vec![]
    }
    fn vals(n: usize, d: usize) -> Vec<Self> {
        vec![Self]
    }
    fn into_v(self) -> Option<Value> { Some(self.into()) }
    fn dup(&self) -> Self {
        Self
    }
    fn dfmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        std::fmt::Debug::fmt(self, f)
    }
}

#[allow(dead_code)]
#[derive(Reflect, Clone, Debug)]
pub struct SameS0 {
    pub p: u8,
    pub q: u8,
    pub r: u8,
    pub s: u8,
}
#[allow(unused_variables, unused_mut, clippy::all)]
impl Modeled for SameS0 {
    fn t() -> T {
        T::Struct { name: std::any::type_name::<Self>(), fields: vec![FieldT { name: Some("p"), ty: <u8 as Modeled>::t, with: None, meta: vec![], docs: vec![] }, FieldT { name: Some("q"), ty: <u8 as Modeled>::t, with: None, meta: vec![], docs: vec![] }, FieldT { name: Some("r"), ty: <u8 as Modeled>::t, with: None, meta: vec![], docs: vec![] }, FieldT { name: Some("s"), ty: <u8 as Modeled>::t, with: None, meta: vec![], docs: vec![] }], meta: vec![], docs: vec![] }
    }
    fn m(&self) -> M {
        M::Struct(vec![("p".to_owned(), self.p.m()), ("q".to_owned(), self.q.m()), ("r".to_owned(), self.r.m()), ("s".to_owned(), self.s.m())])
    }
    fn hidden(&self) -> Vec<u8> {
        vec![]
    }
    fn vals(n: usize, d: usize) -> Vec<Self> {
        let l0 = <u8 as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); let l1 = <u8 as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); let l2 = <u8 as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); let l3 = <u8 as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); combos(&[l0.len(), l1.len(), l2.len(), l3.len()], n.max(1)).into_iter().map(|c: Vec<usize>| Self { p: l0[c[0]].dup(), q: l1[c[1]].dup(), r: l2[c[2]].dup(), s: l3[c[3]].dup() }).collect::<Vec<Self>>()
    }
    fn into_v(self) -> Option<Value> { Some(self.into()) }
    fn dup(&self) -> Self {
        Self { p: self.p.dup(), q: self.q.dup(), r: self.r.dup(), s: self.s.dup() }
    }
    fn dfmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        std::fmt::Debug::fmt(self, f)
    }
}

#[allow(dead_code)]
#[derive(Reflect, Clone, Debug)]
pub struct SameT0(
    pub u8,
    pub u8,
    pub u8,
    pub u8,
);
#[allow(unused_variables, unused_mut, clippy::all)]
impl Modeled for SameT0 {
    fn t() -> T {
        T::TupleStruct { name: std::any::type_name::<Self>(), fields: vec![FieldT { name: None, ty: <u8 as Modeled>::t, with: None, meta: vec![], docs: vec![] }, FieldT { name: None, ty: <u8 as Modeled>::t, with: None, meta: vec![], docs: vec![] }, FieldT { name: None, ty: <u8 as Modeled>::t, with: None, meta: vec![], docs: vec![] }, FieldT { name: None, ty: <u8 as Modeled>::t, with: None, meta: vec![], docs: vec![] }], meta: vec![], docs: vec![] }
    }
    fn m(&self) -> M {
        M::TupleStruct(vec![self.0.m(), self.1.m(), self.2.m(), self.3.m()])
    }
    fn hidden(&self) -> Vec<u8> {
        vec![]
    }
    fn vals(n: usize, d: usize) -> Vec<Self> {
        let l0 = <u8 as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); let l1 = <u8 as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); let l2 = <u8 as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); let l3 = <u8 as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); combos(&[l0.len(), l1.len(), l2.len(), l3.len()], n.max(1)).into_iter().map(|c: Vec<usize>| Self(l0[c[0]].dup(), l1[c[1]].dup(), l2[c[2]].dup(), l3[c[3]].dup())).collect::<Vec<Self>>()
    }
    fn into_v(self) -> Option<Value> { Some(self.into()) }
    fn dup(&self) -> Self {
        Self(self.0.dup(), self.1.dup(), self.2.dup(), self.3.dup())
    }
    fn dfmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        std::fmt::Debug::fmt(self, f)
    }
}

#[allow(dead_code)]
#[derive(Reflect, Clone, Debug)]
pub enum SameE0 {
    V {
        p: u8,
        q: u8,
        r: u8,
        s: u8,
    },
    W(
        u8,
        u8,
        u8,
        u8,
    ),
}
#[allow(unused_variables, unused_mut, clippy::all)]
impl Modeled for SameE0 {
    fn t() -> T {
        T::Enum { name: std::any::type_name::<Self>(), variants: vec![VariantT { name: "V", kind: VK::Struct, fields: vec![FieldT { name: Some("p"), ty: <u8 as Modeled>::t, with: None, meta: vec![], docs: vec![] }, FieldT { name: Some("q"), ty: <u8 as Modeled>::t, with: None, meta: vec![], docs: vec![] }, FieldT { name: Some("r"), ty: <u8 as Modeled>::t, with: None, meta: vec![], docs: vec![] }, FieldT { name: Some("s"), ty: <u8 as Modeled>::t, with: None, meta: vec![], docs: vec![] }], meta: vec![], docs: vec![] }, VariantT { name: "W", kind: VK::Tuple, fields: vec![FieldT { name: None, ty: <u8 as Modeled>::t, with: None, meta: vec![], docs: vec![] }, FieldT { name: None, ty: <u8 as Modeled>::t, with: None, meta: vec![], docs: vec![] }, FieldT { name: None, ty: <u8 as Modeled>::t, with: None, meta: vec![], docs: vec![] }, FieldT { name: None, ty: <u8 as Modeled>::t, with: None, meta: vec![], docs: vec![] }], meta: vec![], docs: vec![] }], skipped: vec![], meta: vec![], docs: vec![] }
    }
    fn m(&self) -> M {
        match self {
            Self::V { p: x0, q: x1, r: x2, s: x3 } => M::Enum("V".into(), VK::Struct, vec![(Some("p".into()), x0.m()), (Some("q".into()), x1.m()), (Some("r".into()), x2.m()), (Some("s".into()), x3.m())]),
            Self::W(x0, x1, x2, x3) => M::Enum("W".into(), VK::Tuple, vec![(None, x0.m()), (None, x1.m()), (None, x2.m()), (None, x3.m())]),
        }
    }
    fn hidden(&self) -> Vec<u8> {
        match self {
            _ => vec![],
        }
    }
    fn vals(n: usize, d: usize) -> Vec<Self> {
        let mut per: Vec<Vec<Self>> = vec![];
        per.push({ let l0 = <u8 as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); let l1 = <u8 as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); let l2 = <u8 as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); let l3 = <u8 as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); combos(&[l0.len(), l1.len(), l2.len(), l3.len()], n.max(1)).into_iter().map(|c: Vec<usize>| Self::V { p: l0[c[0]].dup(), q: l1[c[1]].dup(), r: l2[c[2]].dup(), s: l3[c[3]].dup() }).collect::<Vec<Self>>() });
        per.push({ let l0 = <u8 as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); let l1 = <u8 as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); let l2 = <u8 as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); let l3 = <u8 as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); combos(&[l0.len(), l1.len(), l2.len(), l3.len()], n.max(1)).into_iter().map(|c: Vec<usize>| Self::W(l0[c[0]].dup(), l1[c[1]].dup(), l2[c[2]].dup(), l3[c[3]].dup())).collect::<Vec<Self>>() });
        interleave(per, n)
    }
    fn into_v(self) -> Option<Value> { Some(self.into()) }
    fn dup(&self) -> Self {
        match self {
            Self::V { p: x0, q: x1, r: x2, s: x3 } => Self::V { p: x0.dup(), q: x1.dup(), r: x2.dup(), s: x3.dup() },
            Self::W(x0, x1, x2, x3) => Self::W(x0.dup(), x1.dup(), x2.dup(), x3.dup()),
        }
    }
    fn dfmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        std::fmt::Debug::fmt(self, f)
    }
}

#[allow(dead_code)]
#[derive(Reflect, Clone, Debug)]
pub struct SameS1 {
    #[reflect(skip)] pub p: Hid,
    pub q: u8,
    pub r: u8,
    pub s: u8,
}
#[allow(unused_variables, unused_mut, clippy::all)]
impl Modeled for SameS1 {
    fn t() -> T {
        T::Struct { name: std::any::type_name::<Self>(), fields: vec![FieldT { name: Some("q"), ty: <u8 as Modeled>::t, with: None, meta: vec![], docs: vec![] }, FieldT { name: Some("r"), ty: <u8 as Modeled>::t, with: None, meta: vec![], docs: vec![] }, FieldT { name: Some("s"), ty: <u8 as Modeled>::t, with: None, meta: vec![], docs: vec![] }], meta: vec![], docs: vec![] }
    }
    fn m(&self) -> M {
        M::Struct(vec![("q".to_owned(), self.q.m()), ("r".to_owned(), self.r.m()), ("s".to_owned(), self.s.m())])
    }
    fn hidden(&self) -> Vec<u8> {
        vec![self.p.0]
    }
    fn vals(n: usize, d: usize) -> Vec<Self> {
        let l1 = <u8 as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); let l2 = <u8 as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); let l3 = <u8 as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); combos(&[l1.len(), l2.len(), l3.len()], n.max(1)).into_iter().map(|c: Vec<usize>| Self { p: Hid(1), q: l1[c[0]].dup(), r: l2[c[1]].dup(), s: l3[c[2]].dup() }).collect::<Vec<Self>>()
    }
    fn into_v(self) -> Option<Value> { Some(self.into()) }
    fn dup(&self) -> Self {
        Self { p: Hid(self.p.0), q: self.q.dup(), r: self.r.dup(), s: self.s.dup() }
    }
    fn dfmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        std::fmt::Debug::fmt(self, f)
    }
}

#[allow(dead_code)]
#[derive(Reflect, Clone, Debug)]
pub struct SameT1(
    #[reflect(skip)] pub Hid,
    pub u8,
    pub u8,
    pub u8,
);
#[allow(unused_variables, unused_mut, clippy::all)]
impl Modeled for SameT1 {
    fn t() -> T {
        T::TupleStruct { name: std::any::type_name::<Self>(), fields: vec![FieldT { name: None, ty: <u8 as Modeled>::t, with: None, meta: vec![], docs: vec![] }, FieldT { name: None, ty: <u8 as Modeled>::t, with: None, meta: vec![], docs: vec![] }, FieldT { name: None, ty: <u8 as Modeled>::t, with: None, meta: vec![], docs: vec![] }], meta: vec![], docs: vec![] }
    }
    fn m(&self) -> M {
        M::TupleStruct(vec![self.1.m(), self.2.m(), self.3.m()])
    }
    fn hidden(&self) -> Vec<u8> {
        vec![self.0.0]
    }
    fn vals(n: usize, d: usize) -> Vec<Self> {
        let l1 = <u8 as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); let l2 = <u8 as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); let l3 = <u8 as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); combos(&[l1.len(), l2.len(), l3.len()], n.max(1)).into_iter().map(|c: Vec<usize>| Self(Hid(1), l1[c[0]].dup(), l2[c[1]].dup(), l3[c[2]].dup())).collect::<Vec<Self>>()
    }
    fn into_v(self) -> Option<Value> { Some(self.into()) }
    fn dup(&self) -> Self {
        Self(Hid(self.0.0), self.1.dup(), self.2.dup(), self.3.dup())
    }
    fn dfmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        std::fmt::Debug::fmt(self, f)
    }
}

#[allow(dead_code)]
#[derive(Reflect, Clone, Debug)]
pub enum SameE1 {
    V {
        #[reflect(skip)] p: Hid,
        q: u8,
        r: u8,
        s: u8,
    },
    W(
        #[reflect(skip)] Hid,
        u8,
        u8,
        u8,
    ),
}
#[allow(unused_variables, unused_mut, clippy::all)]
impl Modeled for SameE1 {
    fn t() -> T {
        T::Enum { name: std::any::type_name::<Self>(), variants: vec![VariantT { name: "V", kind: VK::Struct, fields: vec![FieldT { name: Some("q"), ty: <u8 as Modeled>::t, with: None, meta: vec![], docs: vec![] }, FieldT { name: Some("r"), ty: <u8 as Modeled>::t, with: None, meta: vec![], docs: vec![] }, FieldT { name: Some("s"), ty: <u8 as Modeled>::t, with: None, meta: vec![], docs: vec![] }], meta: vec![], docs: vec![] }, VariantT { name: "W", kind: VK::Tuple, fields: vec![FieldT { name: None, ty: <u8 as Modeled>::t, with: None, meta: vec![], docs: vec![] }, FieldT { name: None, ty: <u8 as Modeled>::t, with: None, meta: vec![], docs: vec![] }, FieldT { name: None, ty: <u8 as Modeled>::t, with: None, meta: vec![], docs: vec![] }], meta: vec![], docs: vec![] }], skipped: vec![], meta: vec![], docs: vec![] }
    }
    fn m(&self) -> M {
        match self {
            Self::V { p: x0, q: x1, r: x2, s: x3 } => M::Enum("V".into(), VK::Struct, vec![(Some("q".into()), x1.m()), (Some("r".into()), x2.m()), (Some("s".into()), x3.m())]),
            Self::W(x0, x1, x2, x3) => M::Enum("W".into(), VK::Tuple, vec![(None, x1.m()), (None, x2.m()), (None, x3.m())]),
        }
    }
    fn hidden(&self) -> Vec<u8> {
        match self {
            Self::V { p: x0, q: x1, r: x2, s: x3 } => vec![x0.0],
            Self::W(x0, x1, x2, x3) => vec![x0.0],
            _ => vec![],
        }
    }
    fn vals(n: usize, d: usize) -> Vec<Self> {
        let mut per: Vec<Vec<Self>> = vec![];
        per.push({ let l1 = <u8 as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); let l2 = <u8 as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); let l3 = <u8 as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); combos(&[l1.len(), l2.len(), l3.len()], n.max(1)).into_iter().map(|c: Vec<usize>| Self::V { p: Hid(1), q: l1[c[0]].dup(), r: l2[c[1]].dup(), s: l3[c[2]].dup() }).collect::<Vec<Self>>() });
        per.push({ let l1 = <u8 as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); let l2 = <u8 as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); let l3 = <u8 as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); combos(&[l1.len(), l2.len(), l3.len()], n.max(1)).into_iter().map(|c: Vec<usize>| Self::W(Hid(1), l1[c[0]].dup(), l2[c[1]].dup(), l3[c[2]].dup())).collect::<Vec<Self>>() });
        interleave(per, n)
    }
    fn into_v(self) -> Option<Value> { Some(self.into()) }
    fn dup(&self) -> Self {
        match self {
            Self::V { p: x0, q: x1, r: x2, s: x3 } => Self::V { p: Hid(x0.0), q: x1.dup(), r: x2.dup(), s: x3.dup() },
            Self::W(x0, x1, x2, x3) => Self::W(Hid(x0.0), x1.dup(), x2.dup(), x3.dup()),
        }
    }
    fn dfmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        std::fmt::Debug::fmt(self, f)
    }
}

#[allow(dead_code)]
#[derive(Reflect, Clone, Debug)]
pub struct SameS2 {
    pub p: u8,
    #[reflect(skip)] pub q: Hid,
    pub r: u8,
    pub s: u8,
}
#[allow(unused_variables, unused_mut, clippy::all)]
impl Modeled for SameS2 {
    fn t() -> T {
        T::Struct { name: std::any::type_name::<Self>(), fields: vec![FieldT { name: Some("p"), ty: <u8 as Modeled>::t, with: None, meta: vec![], docs: vec![] }, FieldT { name: Some("r"), ty: <u8 as Modeled>::t, with: None, meta: vec![], docs: vec![] }, FieldT { name: Some("s"), ty: <u8 as Modeled>::t, with: None, meta: vec![], docs: vec![] }], meta: vec![], docs: vec![] }
    }
    fn m(&self) -> M {
        M::Struct(vec![("p".to_owned(), self.p.m()), ("r".to_owned(), self.r.m()), ("s".to_owned(), self.s.m())])
    }
    fn hidden(&self) -> Vec<u8> {
        vec![self.q.0]
    }
    fn vals(n: usize, d: usize) -> Vec<Self> {
        let l0 = <u8 as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); let l2 = <u8 as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); let l3 = <u8 as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); combos(&[l0.len(), l2.len(), l3.len()], n.max(1)).into_iter().map(|c: Vec<usize>| Self { p: l0[c[0]].dup(), q: Hid(2), r: l2[c[1]].dup(), s: l3[c[2]].dup() }).collect::<Vec<Self>>()
    }
    fn into_v(self) -> Option<Value> { Some(self.into()) }
    fn dup(&self) -> Self {
        Self { p: self.p.dup(), q: Hid(self.q.0), r: self.r.dup(), s: self.s.dup() }
    }
    fn dfmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        std::fmt::Debug::fmt(self, f)
    }
}

#[allow(dead_code)]
#[derive(Reflect, Clone, Debug)]
pub struct SameT2(
    pub u8,
    #[reflect(skip)] pub Hid,
    pub u8,
    pub u8,
);
#[allow(unused_variables, unused_mut, clippy::all)]
impl Modeled for SameT2 {
    fn t() -> T {
        T::TupleStruct { name: std::any::type_name::<Self>(), fields: vec![FieldT { name: None, ty: <u8 as Modeled>::t, with: None, meta: vec![], docs: vec![] }, FieldT { name: None, ty: <u8 as Modeled>::t, with: None, meta: vec![], docs: vec![] }, FieldT { name: None, ty: <u8 as Modeled>::t, with: None, meta: vec![], docs: vec![] }], meta: vec![], docs: vec![] }
    }
    fn m(&self) -> M {
        M::TupleStruct(vec![self.0.m(), self.2.m(), self.3.m()])
    }
    fn hidden(&self) -> Vec<u8> {
        vec![self.1.0]
    }
    fn vals(n: usize, d: usize) -> Vec<Self> {
        let l0 = <u8 as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); let l2 = <u8 as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); let l3 = <u8 as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); combos(&[l0.len(), l2.len(), l3.len()], n.max(1)).into_iter().map(|c: Vec<usize>| Self(l0[c[0]].dup(), Hid(2), l2[c[1]].dup(), l3[c[2]].dup())).collect::<Vec<Self>>()
    }
    fn into_v(self) -> Option<Value> { Some(self.into()) }
    fn dup(&self) -> Self {
        Self(self.0.dup(), Hid(self.1.0), self.2.dup(), self.3.dup())
    }
    fn dfmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        std::fmt::Debug::fmt(self, f)
    }
}

#[allow(dead_code)]
#[derive(Reflect, Clone, Debug)]
pub enum SameE2 {
    V {
        p: u8,
        #[reflect(skip)] q: Hid,
        r: u8,
        s: u8,
    },
    W(
        u8,
        #[reflect(skip)] Hid,
        u8,
        u8,
    ),
}
#[allow(unused_variables, unused_mut, clippy::all)]
impl Modeled for SameE2 {
    fn t() -> T {
        T::Enum { name: std::any::type_name::<Self>(), variants: vec![VariantT { name: "V", kind: VK::Struct, fields: vec![FieldT { name: Some("p"), ty: <u8 as Modeled>::t, with: None, meta: vec![], docs: vec![] }, FieldT { name: Some("r"), ty: <u8 as Modeled>::t, with: None, meta: vec![], docs: vec![] }, FieldT { name: Some("s"), ty: <u8 as Modeled>::t, with: None, meta: vec![], docs: vec![] }], meta: vec![], docs: vec![] }, VariantT { name: "W", kind: VK::Tuple, fields: vec![FieldT { name: None, ty: <u8 as Modeled>::t, with: None, meta: vec![], docs: vec![] }, FieldT { name: None, ty: <u8 as Modeled>::t, with: None, meta: vec![], docs: vec![] }, FieldT { name: None, ty: <u8 as Modeled>::t, with: None, meta: vec![], docs: vec![] }], meta: vec![], docs: vec![] }], skipped: vec![], meta: vec![], docs: vec![] }
    }
    fn m(&self) -> M {
        match self {
            Self::V { p: x0, q: x1, r: x2, s: x3 } => M::Enum("V".into(), VK::Struct, vec![(Some("p".into()), x0.m()), (Some("r".into()), x2.m()), (Some("s".into()), x3.m())]),
            Self::W(x0, x1, x2, x3) => M::Enum("W".into(), VK::Tuple, vec![(None, x0.m()), (None, x2.m()), (None, x3.m())]),
        }
    }
    fn hidden(&self) -> Vec<u8> {
        match self {
            Self::V { p: x0, q: x1, r: x2, s: x3 } => vec![x1.0],
            Self::W(x0, x1, x2, x3) => vec![x1.0],
            _ => vec![],
        }
    }
    fn vals(n: usize, d: usize) -> Vec<Self> {
        let mut per: Vec<Vec<Self>> = vec![];
        per.push({ let l0 = <u8 as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); let l2 = <u8 as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); let l3 = <u8 as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); combos(&[l0.len(), l2.len(), l3.len()], n.max(1)).into_iter().map(|c: Vec<usize>| Self::V { p: l0[c[0]].dup(), q: Hid(2), r: l2[c[1]].dup(), s: l3[c[2]].dup() }).collect::<Vec<Self>>() });
        per.push({ let l0 = <u8 as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); let l2 = <u8 as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); let l3 = <u8 as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); combos(&[l0.len(), l2.len(), l3.len()], n.max(1)).into_iter().map(|c: Vec<usize>| Self::W(l0[c[0]].dup(), Hid(2), l2[c[1]].dup(), l3[c[2]].dup())).collect::<Vec<Self>>() });
        interleave(per, n)
    }
    fn into_v(self) -> Option<Value> { Some(self.into()) }
    fn dup(&self) -> Self {
        match self {
            Self::V { p: x0, q: x1, r: x2, s: x3 } => Self::V { p: x0.dup(), q: Hid(x1.0), r: x2.dup(), s: x3.dup() },
            Self::W(x0, x1, x2, x3) => Self::W(x0.dup(), Hid(x1.0), x2.dup(), x3.dup()),
        }
    }
    fn dfmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        std::fmt::Debug::fmt(self, f)
    }
}

#[allow(dead_code)]
#[derive(Reflect, Clone, Debug)]
pub struct SameS4 {
    pub p: u8,
    pub q: u8,
    #[reflect(skip)] pub r: Hid,
    pub s: u8,
}
#[allow(unused_variables, unused_mut, clippy::all)]
impl Modeled for SameS4 {
    fn t() -> T {
        T::Struct { name: std::any::type_name::<Self>(), fields: vec![FieldT { name: Some("p"), ty: <u8 as Modeled>::t, with: None, meta: vec![], docs: vec![] }, FieldT { name: Some("q"), ty: <u8 as Modeled>::t, with: None, meta: vec![], docs: vec![] }, FieldT { name: Some("s"), ty: <u8 as Modeled>::t, with: None, meta: vec![], docs: vec![] }], meta: vec![], docs: vec![] }
    }
    fn m(&self) -> M {
        M::Struct(vec![("p".to_owned(), self.p.m()), ("q".to_owned(), self.q.m()), ("s".to_owned(), self.s.m())])
    }
    fn hidden(&self) -> Vec<u8> {
        vec![self.r.0]
    }
    fn vals(n: usize, d: usize) -> Vec<Self> {
        let l0 = <u8 as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); let l1 = <u8 as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); let l3 = <u8 as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); combos(&[l0.len(), l1.len(), l3.len()], n.max(1)).into_iter().map(|c: Vec<usize>| Self { p: l0[c[0]].dup(), q: l1[c[1]].dup(), r: Hid(3), s: l3[c[2]].dup() }).collect::<Vec<Self>>()
    }
    fn into_v(self) -> Option<Value> { Some(self.into()) }
    fn dup(&self) -> Self {
        Self { p: self.p.dup(), q: self.q.dup(), r: Hid(self.r.0), s: self.s.dup() }
    }
    fn dfmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        std::fmt::Debug::fmt(self, f)
    }
}

#[allow(dead_code)]
#[derive(Reflect, Clone, Debug)]
pub struct SameT4(
    pub u8,
    pub u8,
    #[reflect(skip)] pub Hid,
    pub u8,
);
#[allow(unused_variables, unused_mut, clippy::all)]
impl Modeled for SameT4 {
    fn t() -> T {
        T::TupleStruct { name: std::any::type_name::<Self>(), fields: vec![FieldT { name: None, ty: <u8 as Modeled>::t, with: None, meta: vec![], docs: vec![] }, FieldT { name: None, ty: <u8 as Modeled>::t, with: None, meta: vec![], docs: vec![] }, FieldT { name: None, ty: <u8 as Modeled>::t, with: None, meta: vec![], docs: vec![] }], meta: vec![], docs: vec![] }
    }
    fn m(&self) -> M {
        M::TupleStruct(vec![self.0.m(), self.1.m(), self.3.m()])
    }
    fn hidden(&self) -> Vec<u8> {
        vec![self.2.0]
    }
    fn vals(n: usize, d: usize) -> Vec<Self> {
        let l0 = <u8 as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); let l1 = <u8 as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); let l3 = <u8 as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); combos(&[l0.len(), l1.len(), l3.len()], n.max(1)).into_iter().map(|c: Vec<usize>| Self(l0[c[0]].dup(), l1[c[1]].dup(), Hid(3), l3[c[2]].dup())).collect::<Vec<Self>>()
    }
    fn into_v(self) -> Option<Value> { Some(self.into()) }
    fn dup(&self) -> Self {
        Self(self.0.dup(), self.1.dup(), Hid(self.2.0), self.3.dup())
    }
    fn dfmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        std::fmt::Debug::fmt(self, f)
    }
}

#[allow(dead_code)]
#[derive(Reflect, Clone, Debug)]
pub enum SameE4 {
    V {
        p: u8,
        q: u8,
        #[reflect(skip)] r: Hid,
        s: u8,
    },
    W(
        u8,
        u8,
        #[reflect(skip)] Hid,
        u8,
    ),
}
#[allow(unused_variables, unused_mut, clippy::all)]
impl Modeled for SameE4 {
    fn t() -> T {
        T::Enum { name: std::any::type_name::<Self>(), variants: vec![VariantT { name: "V", kind: VK::Struct, fields: vec![FieldT { name: Some("p"), ty: <u8 as Modeled>::t, with: None, meta: vec![], docs: vec![] }, FieldT { name: Some("q"), ty: <u8 as Modeled>::t, with: None, meta: vec![], docs: vec![] }, FieldT { name: Some("s"), ty: <u8 as Modeled>::t, with: None, meta: vec![], docs: vec![] }], meta: vec![], docs: vec![] }, VariantT { name: "W", kind: VK::Tuple, fields: vec![FieldT { name: None, ty: <u8 as Modeled>::t, with: None, meta: vec![], docs: vec![] }, FieldT { name: None, ty: <u8 as Modeled>::t, with: None, meta: vec![], docs: vec![] }, FieldT { name: None, ty: <u8 as Modeled>::t, with: None, meta: vec![], docs: vec![] }], meta: vec![], docs: vec![] }], skipped: vec![], meta: vec![], docs: vec![] }
    }
    fn m(&self) -> M {
        match self {
            Self::V { p: x0, q: x1, r: x2, s: x3 } => M::Enum("V".into(), VK::Struct, vec![(Some("p".into()), x0.m()), (Some("q".into()), x1.m()), (Some("s".into()), x3.m())]),
            Self::W(x0, x1, x2, x3) => M::Enum("W".into(), VK::Tuple, vec![(None, x0.m()), (None, x1.m()), (None, x3.m())]),
        }
    }
    fn hidden(&self) -> Vec<u8> {
        match self {
            Self::V { p: x0, q: x1, r: x2, s: x3 } => vec![x2.0],
            Self::W(x0, x1, x2, x3) => vec![x2.0],
            _ => vec![],
        }
    }
    fn vals(n: usize, d: usize) -> Vec<Self> {
        let mut per: Vec<Vec<Self>> = vec![];
        per.push({ let l0 = <u8 as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); let l1 = <u8 as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); let l3 = <u8 as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); combos(&[l0.len(), l1.len(), l3.len()], n.max(1)).into_iter().map(|c: Vec<usize>| Self::V { p: l0[c[0]].dup(), q: l1[c[1]].dup(), r: Hid(3), s: l3[c[2]].dup() }).collect::<Vec<Self>>() });
        per.push({ let l0 = <u8 as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); let l1 = <u8 as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); let l3 = <u8 as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); combos(&[l0.len(), l1.len(), l3.len()], n.max(1)).into_iter().map(|c: Vec<usize>| Self::W(l0[c[0]].dup(), l1[c[1]].dup(), Hid(3), l3[c[2]].dup())).collect::<Vec<Self>>() });
        interleave(per, n)
    }
    fn into_v(self) -> Option<Value> { Some(self.into()) }
    fn dup(&self) -> Self {
        match self {
            Self::V { p: x0, q: x1, r: x2, s: x3 } => Self::V { p: x0.dup(), q: x1.dup(), r: Hid(x2.0), s: x3.dup() },
            Self::W(x0, x1, x2, x3) => Self::W(x0.dup(), x1.dup(), Hid(x2.0), x3.dup()),
        }
    }
    fn dfmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        std::fmt::Debug::fmt(self, f)
    }
}

#[allow(dead_code)]
#[derive(Reflect, Clone, Debug)]
pub struct SameS5 {
    #[reflect(skip)] pub p: Hid,
    pub q: u8,
    #[reflect(skip)] pub r: Hid,
    pub s: u8,
}
#[allow(unused_variables, unused_mut, clippy::all)]
impl Modeled for SameS5 {
    fn t() -> T {
        T::Struct { name: std::any::type_name::<Self>(), fields: vec![FieldT { name: Some("q"), ty: <u8 as Modeled>::t, with: None, meta: vec![], docs: vec![] }, FieldT { name: Some("s"), ty: <u8 as Modeled>::t, with: None, meta: vec![], docs: vec![] }], meta: vec![], docs: vec![] }
    }
    fn m(&self) -> M {
        M::Struct(vec![("q".to_owned(), self.q.m()), ("s".to_owned(), self.s.m())])
    }
    fn hidden(&self) -> Vec<u8> {
        vec![self.p.0, self.r.0]
    }
    fn vals(n: usize, d: usize) -> Vec<Self> {
        let l1 = <u8 as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); let l3 = <u8 as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); combos(&[l1.len(), l3.len()], n.max(1)).into_iter().map(|c: Vec<usize>| Self { p: Hid(1), q: l1[c[0]].dup(), r: Hid(3), s: l3[c[1]].dup() }).collect::<Vec<Self>>()
    }
    fn into_v(self) -> Option<Value> { Some(self.into()) }
    fn dup(&self) -> Self {
        Self { p: Hid(self.p.0), q: self.q.dup(), r: Hid(self.r.0), s: self.s.dup() }
    }
    fn dfmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        std::fmt::Debug::fmt(self, f)
    }
}

#[allow(dead_code)]
#[derive(Reflect, Clone, Debug)]
pub struct SameT5(
    #[reflect(skip)] pub Hid,
    pub u8,
    #[reflect(skip)] pub Hid,
    pub u8,
);
#[allow(unused_variables, unused_mut, clippy::all)]
impl Modeled for SameT5 {
    fn t() -> T {
        T::TupleStruct { name: std::any::type_name::<Self>(), fields: vec![FieldT { name: None, ty: <u8 as Modeled>::t, with: None, meta: vec![], docs: vec![] }, FieldT { name: None, ty: <u8 as Modeled>::t, with: None, meta: vec![], docs: vec![] }], meta: vec![], docs: vec![] }
    }
    fn m(&self) -> M {
        M::TupleStruct(vec![self.1.m(), self.3.m()])
    }
    fn hidden(&self) -> Vec<u8> {
        vec![self.0.0, self.2.0]
    }
    fn vals(n: usize, d: usize) -> Vec<Self> {
        let l1 = <u8 as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); let l3 = <u8 as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); combos(&[l1.len(), l3.len()], n.max(1)).into_iter().map(|c: Vec<usize>| Self(Hid(1), l1[c[0]].dup(), Hid(3), l3[c[1]].dup())).collect::<Vec<Self>>()
    }
    fn into_v(self) -> Option<Value> { Some(self.into()) }
    fn dup(&self) -> Self {
        Self(Hid(self.0.0), self.1.dup(), Hid(self.2.0), self.3.dup())
    }
    fn dfmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        std::fmt::Debug::fmt(self, f)
    }
}

#[allow(dead_code)]
#[derive(Reflect, Clone, Debug)]
pub enum SameE5 {
    V {
        #[reflect(skip)] p: Hid,
        q: u8,
        #[reflect(skip)] r: Hid,
        s: u8,
    },
    W(
        #[reflect(skip)] Hid,
        u8,
        #[reflect(skip)] Hid,
        u8,
    ),
}
#[allow(unused_variables, unused_mut, clippy::all)]
impl Modeled for SameE5 {
    fn t() -> T {
        T::Enum { name: std::any::type_name::<Self>(), variants: vec![VariantT { name: "V", kind: VK::Struct, fields: vec![FieldT { name: Some("q"), ty: <u8 as Modeled>::t, with: None, meta: vec![], docs: vec![] }, FieldT { name: Some("s"), ty: <u8 as Modeled>::t, with: None, meta: vec![], docs: vec![] }], meta: vec![], docs: vec![] }, VariantT { name: "W", kind: VK::Tuple, fields: vec![FieldT { name: None, ty: <u8 as Modeled>::t, with: None, meta: vec![], docs: vec![] }, FieldT { name: None, ty: <u8 as Modeled>::t, with: None, meta: vec![], docs: vec![] }], meta: vec![], docs: vec![] }], skipped: vec![], meta: vec![], docs: vec![] }
    }
    fn m(&self) -> M {
        match self {
            Self::V { p: x0, q: x1, r: x2, s: x3 } => M::Enum("V".into(), VK::Struct, vec![(Some("q".into()), x1.m()), (Some("s".into()), x3.m())]),
            Self::W(x0, x1, x2, x3) => M::Enum("W".into(), VK::Tuple, vec![(None, x1.m()), (None, x3.m())]),
        }
    }
    fn hidden(&self) -> Vec<u8> {
        match self {
            Self::V { p: x0, q: x1, r: x2, s: x3 } => vec![x0.0, x2.0],
            Self::W(x0, x1, x2, x3) => vec![x0.0, x2.0],
            _ => vec![],
        }
    }
    fn vals(n: usize, d: usize) -> Vec<Self> {
        let mut per: Vec<Vec<Self>> = vec![];
        per.push({ let l1 = <u8 as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); let l3 = <u8 as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); combos(&[l1.len(), l3.len()], n.max(1)).into_iter().map(|c: Vec<usize>| Self::V { p: Hid(1), q: l1[c[0]].dup(), r: Hid(3), s: l3[c[1]].dup() }).collect::<Vec<Self>>() });
        per.push({ let l1 = <u8 as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); let l3 = <u8 as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); combos(&[l1.len(), l3.len()], n.max(1)).into_iter().map(|c: Vec<usize>| Self::W(Hid(1), l1[c[0]].dup(), Hid(3), l3[c[1]].dup())).collect::<Vec<Self>>() });
        interleave(per, n)
    }
    fn into_v(self) -> Option<Value> { Some(self.into()) }
    fn dup(&self) -> Self {
        match self {
            Self::V { p: x0, q: x1, r: x2, s: x3 } => Self::V { p: Hid(x0.0), q: x1.dup(), r: Hid(x2.0), s: x3.dup() },
            Self::W(x0, x1, x2, x3) => Self::W(Hid(x0.0), x1.dup(), Hid(x2.0), x3.dup()),
        }
    }
    fn dfmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        std::fmt::Debug::fmt(self, f)
    }
}

#[allow(dead_code)]
#[derive(Reflect, Clone, Debug)]
pub struct SameS9 {
    #[reflect(skip)] pub p: Hid,
    pub q: u8,
    pub r: u8,
    #[reflect(skip)] pub s: Hid,
}
#[allow(unused_variables, unused_mut, clippy::all)]
impl Modeled for SameS9 {
    fn t() -> T {
        T::Struct { name: std::any::type_name::<Self>(), fields: vec![FieldT { name: Some("q"), ty: <u8 as Modeled>::t, with: None, meta: vec![], docs: vec![] }, FieldT { name: Some("r"), ty: <u8 as Modeled>::t, with: None, meta: vec![], docs: vec![] }], meta: vec![], docs: vec![] }
    }
    fn m(&self) -> M {
        M::Struct(vec![("q".to_owned(), self.q.m()), ("r".to_owned(), self.r.m())])
    }
    fn hidden(&self) -> Vec<u8> {
        vec![self.p.0, self.s.0]
    }
    fn vals(n: usize, d: usize) -> Vec<Self> {
        let l1 = <u8 as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); let l2 = <u8 as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); combos(&[l1.len(), l2.len()], n.max(1)).into_iter().map(|c: Vec<usize>| Self { p: Hid(1), q: l1[c[0]].dup(), r: l2[c[1]].dup(), s: Hid(4) }).collect::<Vec<Self>>()
    }
    fn into_v(self) -> Option<Value> { Some(self.into()) }
    fn dup(&self) -> Self {
        Self { p: Hid(self.p.0), q: self.q.dup(), r: self.r.dup(), s: Hid(self.s.0) }
    }
    fn dfmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        std::fmt::Debug::fmt(self, f)
    }
}

#[allow(dead_code)]
#[derive(Reflect, Clone, Debug)]
pub struct SameT9(
    #[reflect(skip)] pub Hid,
    pub u8,
    pub u8,
    #[reflect(skip)] pub Hid,
);
#[allow(unused_variables, unused_mut, clippy::all)]
impl Modeled for SameT9 {
    fn t() -> T {
        T::TupleStruct { name: std::any::type_name::<Self>(), fields: vec![FieldT { name: None, ty: <u8 as Modeled>::t, with: None, meta: vec![], docs: vec![] }, FieldT { name: None, ty: <u8 as Modeled>::t, with: None, meta: vec![], docs: vec![] }], meta: vec![], docs: vec![] }
    }
    fn m(&self) -> M {
        M::TupleStruct(vec![self.1.m(), self.2.m()])
    }
    fn hidden(&self) -> Vec<u8> {
        vec![self.0.0, self.3.0]
    }
    fn vals(n: usize, d: usize) -> Vec<Self> {
        let l1 = <u8 as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); let l2 = <u8 as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); combos(&[l1.len(), l2.len()], n.max(1)).into_iter().map(|c: Vec<usize>| Self(Hid(1), l1[c[0]].dup(), l2[c[1]].dup(), Hid(4))).collect::<Vec<Self>>()
    }
    fn into_v(self) -> Option<Value> { Some(self.into()) }
    fn dup(&self) -> Self {
        Self(Hid(self.0.0), self.1.dup(), self.2.dup(), Hid(self.3.0))
    }
    fn dfmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        std::fmt::Debug::fmt(self, f)
    }
}

#[allow(dead_code)]
#[derive(Reflect, Clone, Debug)]
pub enum SameE9 {
    V {
        #[reflect(skip)] p: Hid,
        q: u8,
        r: u8,
        #[reflect(skip)] s: Hid,
    },
    W(
        #[reflect(skip)] Hid,
        u8,
        u8,
        #[reflect(skip)] Hid,
    ),
}
#[allow(unused_variables, unused_mut, clippy::all)]
impl Modeled for SameE9 {
    fn t() -> T {
        T::Enum { name: std::any::type_name::<Self>(), variants: vec![VariantT { name: "V", kind: VK::Struct, fields: vec![FieldT { name: Some("q"), ty: <u8 as Modeled>::t, with: None, meta: vec![], docs: vec![] }, FieldT { name: Some("r"), ty: <u8 as Modeled>::t, with: None, meta: vec![], docs: vec![] }], meta: vec![], docs: vec![] }, VariantT { name: "W", kind: VK::Tuple, fields: vec![FieldT { name: None, ty: <u8 as Modeled>::t, with: None, meta: vec![], docs: vec![] }, FieldT { name: None, ty: <u8 as Modeled>::t, with: None, meta: vec![], docs: vec![] }], meta: vec![], docs: vec![] }], skipped: vec![], meta: vec![], docs: vec![] }
    }
    fn m(&self) -> M {
        match self {
            Self::V { p: x0, q: x1, r: x2, s: x3 } => M::Enum("V".into(), VK::Struct, vec![(Some("q".into()), x1.m()), (Some("r".into()), x2.m())]),
            Self::W(x0, x1, x2, x3) => M::Enum("W".into(), VK::Tuple, vec![(None, x1.m()), (None, x2.m())]),
        }
    }
    fn hidden(&self) -> Vec<u8> {
        match self {
            Self::V { p: x0, q: x1, r: x2, s: x3 } => vec![x0.0, x3.0],
            Self::W(x0, x1, x2, x3) => vec![x0.0, x3.0],
            _ => vec![],
        }
    }
    fn vals(n: usize, d: usize) -> Vec<Self> {
        let mut per: Vec<Vec<Self>> = vec![];
        per.push({ let l1 = <u8 as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); let l2 = <u8 as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); combos(&[l1.len(), l2.len()], n.max(1)).into_iter().map(|c: Vec<usize>| Self::V { p: Hid(1), q: l1[c[0]].dup(), r: l2[c[1]].dup(), s: Hid(4) }).collect::<Vec<Self>>() });
        per.push({ let l1 = <u8 as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); let l2 = <u8 as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); combos(&[l1.len(), l2.len()], n.max(1)).into_iter().map(|c: Vec<usize>| Self::W(Hid(1), l1[c[0]].dup(), l2[c[1]].dup(), Hid(4))).collect::<Vec<Self>>() });
        interleave(per, n)
    }
    fn into_v(self) -> Option<Value> { Some(self.into()) }
    fn dup(&self) -> Self {
        match self {
            Self::V { p: x0, q: x1, r: x2, s: x3 } => Self::V { p: Hid(x0.0), q: x1.dup(), r: x2.dup(), s: Hid(x3.0) },
            Self::W(x0, x1, x2, x3) => Self::W(Hid(x0.0), x1.dup(), x2.dup(), Hid(x3.0)),
        }
    }
    fn dfmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        std::fmt::Debug::fmt(self, f)
    }
}

#[allow(dead_code)]
#[derive(Reflect, Clone, Debug)]
pub struct Perm0 {
    pub m: u8,
    pub n: u16,
    pub a_longer: u8,
}
#[allow(unused_variables, unused_mut, clippy::all)]
impl Modeled for Perm0 {
    fn t() -> T {
        T::Struct { name: std::any::type_name::<Self>(), fields: vec![FieldT { name: Some("m"), ty: <u8 as Modeled>::t, with: None, meta: vec![], docs: vec![] }, FieldT { name: Some("n"), ty: <u16 as Modeled>::t, with: None, meta: vec![], docs: vec![] }, FieldT { name: Some("a_longer"), ty: <u8 as Modeled>::t, with: None, meta: vec![], docs: vec![] }], meta: vec![], docs: vec![] }
    }
    fn m(&self) -> M {
        M::Struct(vec![("m".to_owned(), self.m.m()), ("n".to_owned(), self.n.m()), ("a_longer".to_owned(), self.a_longer.m())])
    }
    fn hidden(&self) -> Vec<u8> {
        vec![]
    }
    fn vals(n: usize, d: usize) -> Vec<Self> {
        let l0 = <u8 as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); let l1 = <u16 as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); let l2 = <u8 as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); combos(&[l0.len(), l1.len(), l2.len()], n.max(1)).into_iter().map(|c: Vec<usize>| Self { m: l0[c[0]].dup(), n: l1[c[1]].dup(), a_longer: l2[c[2]].dup() }).collect::<Vec<Self>>()
    }
    fn into_v(self) -> Option<Value> { Some(self.into()) }
    fn dup(&self) -> Self {
        Self { m: self.m.dup(), n: self.n.dup(), a_longer: self.a_longer.dup() }
    }
    fn dfmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        std::fmt::Debug::fmt(self, f)
    }
}

#[allow(dead_code)]
#[derive(Reflect, Clone, Debug)]
pub enum PermE0 {
    Z {
        m: u8,
        n: u16,
        a_longer: u8,
    },
    W {
        a_longer: u8,
        m: u8,
    },
    A,
}
#[allow(unused_variables, unused_mut, clippy::all)]
impl Modeled for PermE0 {
    fn t() -> T {
        T::Enum { name: std::any::type_name::<Self>(), variants: vec![VariantT { name: "Z", kind: VK::Struct, fields: vec![FieldT { name: Some("m"), ty: <u8 as Modeled>::t, with: None, meta: vec![], docs: vec![] }, FieldT { name: Some("n"), ty: <u16 as Modeled>::t, with: None, meta: vec![], docs: vec![] }, FieldT { name: Some("a_longer"), ty: <u8 as Modeled>::t, with: None, meta: vec![], docs: vec![] }], meta: vec![], docs: vec![] }, VariantT { name: "W", kind: VK::Struct, fields: vec![FieldT { name: Some("a_longer"), ty: <u8 as Modeled>::t, with: None, meta: vec![], docs: vec![] }, FieldT { name: Some("m"), ty: <u8 as Modeled>::t, with: None, meta: vec![], docs: vec![] }], meta: vec![], docs: vec![] }, VariantT { name: "A", kind: VK::Unit, fields: vec![], meta: vec![], docs: vec![] }], skipped: vec![], meta: vec![], docs: vec![] }
    }
    fn m(&self) -> M {
        match self {
            Self::Z { m: x0, n: x1, a_longer: x2 } => M::Enum("Z".into(), VK::Struct, vec![(Some("m".into()), x0.m()), (Some("n".into()), x1.m()), (Some("a_longer".into()), x2.m())]),
            Self::W { a_longer: x0, m: x1 } => M::Enum("W".into(), VK::Struct, vec![(Some("a_longer".into()), x0.m()), (Some("m".into()), x1.m())]),
            Self::A => M::Enum("A".into(), VK::Unit, vec![]),
        }
    }
    fn hidden(&self) -> Vec<u8> {
        match self {
            _ => vec![],
        }
    }
    fn vals(n: usize, d: usize) -> Vec<Self> {
        let mut per: Vec<Vec<Self>> = vec![];
        per.push({ let l0 = <u8 as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); let l1 = <u16 as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); let l2 = <u8 as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); combos(&[l0.len(), l1.len(), l2.len()], n.max(1)).into_iter().map(|c: Vec<usize>| Self::Z { m: l0[c[0]].dup(), n: l1[c[1]].dup(), a_longer: l2[c[2]].dup() }).collect::<Vec<Self>>() });
        per.push({ let l0 = <u8 as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); let l1 = <u8 as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); combos(&[l0.len(), l1.len()], n.max(1)).into_iter().map(|c: Vec<usize>| Self::W { a_longer: l0[c[0]].dup(), m: l1[c[1]].dup() }).collect::<Vec<Self>>() });
        per.push(vec![Self::A]);
        interleave(per, n)
    }
    fn into_v(self) -> Option<Value> { Some(self.into()) }
    fn dup(&self) -> Self {
        match self {
            Self::Z { m: x0, n: x1, a_longer: x2 } => Self::Z { m: x0.dup(), n: x1.dup(), a_longer: x2.dup() },
            Self::W { a_longer: x0, m: x1 } => Self::W { a_longer: x0.dup(), m: x1.dup() },
            Self::A => Self::A,
        }
    }
    fn dfmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        std::fmt::Debug::fmt(self, f)
    }
}

#[allow(dead_code)]
#[derive(Reflect, Clone, Debug)]
pub struct Perm1 {
    pub m: u8,
    pub a_longer: u16,
    pub n: u8,
}
#[allow(unused_variables, unused_mut, clippy::all)]
impl Modeled for Perm1 {
    fn t() -> T {
        T::Struct { name: std::any::type_name::<Self>(), fields: vec![FieldT { name: Some("m"), ty: <u8 as Modeled>::t, with: None, meta: vec![], docs: vec![] }, FieldT { name: Some("a_longer"), ty: <u16 as Modeled>::t, with: None, meta: vec![], docs: vec![] }, FieldT { name: Some("n"), ty: <u8 as Modeled>::t, with: None, meta: vec![], docs: vec![] }], meta: vec![], docs: vec![] }
    }
    fn m(&self) -> M {
        M::Struct(vec![("m".to_owned(), self.m.m()), ("a_longer".to_owned(), self.a_longer.m()), ("n".to_owned(), self.n.m())])
    }
    fn hidden(&self) -> Vec<u8> {
        vec![]
    }
    fn vals(n: usize, d: usize) -> Vec<Self> {
        let l0 = <u8 as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); let l1 = <u16 as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); let l2 = <u8 as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); combos(&[l0.len(), l1.len(), l2.len()], n.max(1)).into_iter().map(|c: Vec<usize>| Self { m: l0[c[0]].dup(), a_longer: l1[c[1]].dup(), n: l2[c[2]].dup() }).collect::<Vec<Self>>()
    }
    fn into_v(self) -> Option<Value> { Some(self.into()) }
    fn dup(&self) -> Self {
        Self { m: self.m.dup(), a_longer: self.a_longer.dup(), n: self.n.dup() }
    }
    fn dfmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        std::fmt::Debug::fmt(self, f)
    }
}

#[allow(dead_code)]
#[derive(Reflect, Clone, Debug)]
pub enum PermE1 {
    Y {
        m: u8,
        a_longer: u16,
        n: u8,
    },
    W {
        n: u8,
        m: u8,
    },
    A,
}
#[allow(unused_variables, unused_mut, clippy::all)]
impl Modeled for PermE1 {
    fn t() -> T {
        T::Enum { name: std::any::type_name::<Self>(), variants: vec![VariantT { name: "Y", kind: VK::Struct, fields: vec![FieldT { name: Some("m"), ty: <u8 as Modeled>::t, with: None, meta: vec![], docs: vec![] }, FieldT { name: Some("a_longer"), ty: <u16 as Modeled>::t, with: None, meta: vec![], docs: vec![] }, FieldT { name: Some("n"), ty: <u8 as Modeled>::t, with: None, meta: vec![], docs: vec![] }], meta: vec![], docs: vec![] }, VariantT { name: "W", kind: VK::Struct, fields: vec![FieldT { name: Some("n"), ty: <u8 as Modeled>::t, with: None, meta: vec![], docs: vec![] }, FieldT { name: Some("m"), ty: <u8 as Modeled>::t, with: None, meta: vec![], docs: vec![] }], meta: vec![], docs: vec![] }, VariantT { name: "A", kind: VK::Unit, fields: vec![], meta: vec![], docs: vec![] }], skipped: vec![], meta: vec![], docs: vec![] }
    }
    fn m(&self) -> M {
        match self {
            Self::Y { m: x0, a_longer: x1, n: x2 } => M::Enum("Y".into(), VK::Struct, vec![(Some("m".into()), x0.m()), (Some("a_longer".into()), x1.m()), (Some("n".into()), x2.m())]),
            Self::W { n: x0, m: x1 } => M::Enum("W".into(), VK::Struct, vec![(Some("n".into()), x0.m()), (Some("m".into()), x1.m())]),
            Self::A => M::Enum("A".into(), VK::Unit, vec![]),
        }
    }
    fn hidden(&self) -> Vec<u8> {
        match self {
            _ => vec![],
        }
    }
    fn vals(n: usize, d: usize) -> Vec<Self> {
        let mut per: Vec<Vec<Self>> = vec![];
        per.push({ let l0 = <u8 as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); let l1 = <u16 as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); let l2 = <u8 as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); combos(&[l0.len(), l1.len(), l2.len()], n.max(1)).into_iter().map(|c: Vec<usize>| Self::Y { m: l0[c[0]].dup(), a_longer: l1[c[1]].dup(), n: l2[c[2]].dup() }).collect::<Vec<Self>>() });
        per.push({ let l0 = <u8 as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); let l1 = <u8 as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); combos(&[l0.len(), l1.len()], n.max(1)).into_iter().map(|c: Vec<usize>| Self::W { n: l0[c[0]].dup(), m: l1[c[1]].dup() }).collect::<Vec<Self>>() });
        per.push(vec![Self::A]);
        interleave(per, n)
    }
    fn into_v(self) -> Option<Value> { Some(self.into()) }
    fn dup(&self) -> Self {
        match self {
            Self::Y { m: x0, a_longer: x1, n: x2 } => Self::Y { m: x0.dup(), a_longer: x1.dup(), n: x2.dup() },
            Self::W { n: x0, m: x1 } => Self::W { n: x0.dup(), m: x1.dup() },
            Self::A => Self::A,
        }
    }
    fn dfmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        std::fmt::Debug::fmt(self, f)
    }
}

#[allow(dead_code)]
#[derive(Reflect, Clone, Debug)]
pub struct Perm2 {
    pub n: u8,
    pub m: u16,
    pub a_longer: u8,
}
#[allow(unused_variables, unused_mut, clippy::all)]
impl Modeled for Perm2 {
    fn t() -> T {
        T::Struct { name: std::any::type_name::<Self>(), fields: vec![FieldT { name: Some("n"), ty: <u8 as Modeled>::t, with: None, meta: vec![], docs: vec![] }, FieldT { name: Some("m"), ty: <u16 as Modeled>::t, with: None, meta: vec![], docs: vec![] }, FieldT { name: Some("a_longer"), ty: <u8 as Modeled>::t, with: None, meta: vec![], docs: vec![] }], meta: vec![], docs: vec![] }
    }
    fn m(&self) -> M {
        M::Struct(vec![("n".to_owned(), self.n.m()), ("m".to_owned(), self.m.m()), ("a_longer".to_owned(), self.a_longer.m())])
    }
    fn hidden(&self) -> Vec<u8> {
        vec![]
    }
    fn vals(n: usize, d: usize) -> Vec<Self> {
        let l0 = <u8 as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); let l1 = <u16 as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); let l2 = <u8 as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); combos(&[l0.len(), l1.len(), l2.len()], n.max(1)).into_iter().map(|c: Vec<usize>| Self { n: l0[c[0]].dup(), m: l1[c[1]].dup(), a_longer: l2[c[2]].dup() }).collect::<Vec<Self>>()
    }
    fn into_v(self) -> Option<Value> { Some(self.into()) }
    fn dup(&self) -> Self {
        Self { n: self.n.dup(), m: self.m.dup(), a_longer: self.a_longer.dup() }
    }
    fn dfmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        std::fmt::Debug::fmt(self, f)
    }
}

#[allow(dead_code)]
#[derive(Reflect, Clone, Debug)]
pub enum PermE2 {
    X {
        n: u8,
        m: u16,
        a_longer: u8,
    },
    W {
        a_longer: u8,
        n: u8,
    },
    A,
}
#[allow(unused_variables, unused_mut, clippy::all)]
impl Modeled for PermE2 {
    fn t() -> T {
        T::Enum { name: std::any::type_name::<Self>(), variants: vec![VariantT { name: "X", kind: VK::Struct, fields: vec![FieldT { name: Some("n"), ty: <u8 as Modeled>::t, with: None, meta: vec![], docs: vec![] }, FieldT { name: Some("m"), ty: <u16 as Modeled>::t, with: None, meta: vec![], docs: vec![] }, FieldT { name: Some("a_longer"), ty: <u8 as Modeled>::t, with: None, meta: vec![], docs: vec![] }], meta: vec![], docs: vec![] }, VariantT { name: "W", kind: VK::Struct, fields: vec![FieldT { name: Some("a_longer"), ty: <u8 as Modeled>::t, with: None, meta: vec![], docs: vec![] }, FieldT { name: Some("n"), ty: <u8 as Modeled>::t, with: None, meta: vec![], docs: vec![] }], meta: vec![], docs: vec![] }, VariantT { name: "A", kind: VK::Unit, fields: vec![], meta: vec![], docs: vec![] }], skipped: vec![], meta: vec![], docs: vec![] }
    }
    fn m(&self) -> M {
        match self {
            Self::X { n: x0, m: x1, a_longer: x2 } => M::Enum("X".into(), VK::Struct, vec![(Some("n".into()), x0.m()), (Some("m".into()), x1.m()), (Some("a_longer".into()), x2.m())]),
            Self::W { a_longer: x0, n: x1 } => M::Enum("W".into(), VK::Struct, vec![(Some("a_longer".into()), x0.m()), (Some("n".into()), x1.m())]),
            Self::A => M::Enum("A".into(), VK::Unit, vec![]),
        }
    }
    fn hidden(&self) -> Vec<u8> {
        match self {
            _ => vec![],
        }
    }
    fn vals(n: usize, d: usize) -> Vec<Self> {
        let mut per: Vec<Vec<Self>> = vec![];
        per.push({ let l0 = <u8 as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); let l1 = <u16 as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); let l2 = <u8 as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); combos(&[l0.len(), l1.len(), l2.len()], n.max(1)).into_iter().map(|c: Vec<usize>| Self::X { n: l0[c[0]].dup(), m: l1[c[1]].dup(), a_longer: l2[c[2]].dup() }).collect::<Vec<Self>>() });
        per.push({ let l0 = <u8 as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); let l1 = <u8 as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); combos(&[l0.len(), l1.len()], n.max(1)).into_iter().map(|c: Vec<usize>| Self::W { a_longer: l0[c[0]].dup(), n: l1[c[1]].dup() }).collect::<Vec<Self>>() });
        per.push(vec![Self::A]);
        interleave(per, n)
    }
    fn into_v(self) -> Option<Value> { Some(self.into()) }
    fn dup(&self) -> Self {
        match self {
            Self::X { n: x0, m: x1, a_longer: x2 } => Self::X { n: x0.dup(), m: x1.dup(), a_longer: x2.dup() },
            Self::W { a_longer: x0, n: x1 } => Self::W { a_longer: x0.dup(), n: x1.dup() },
            Self::A => Self::A,
        }
    }
    fn dfmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        std::fmt::Debug::fmt(self, f)
    }
}

#[allow(dead_code)]
#[derive(Reflect, Clone, Debug)]
pub struct Perm3 {
    pub n: u8,
    pub a_longer: u16,
    pub m: u8,
}
#[allow(unused_variables, unused_mut, clippy::all)]
impl Modeled for Perm3 {
    fn t() -> T {
        T::Struct { name: std::any::type_name::<Self>(), fields: vec![FieldT { name: Some("n"), ty: <u8 as Modeled>::t, with: None, meta: vec![], docs: vec![] }, FieldT { name: Some("a_longer"), ty: <u16 as Modeled>::t, with: None, meta: vec![], docs: vec![] }, FieldT { name: Some("m"), ty: <u8 as Modeled>::t, with: None, meta: vec![], docs: vec![] }], meta: vec![], docs: vec![] }
    }
    fn m(&self) -> M {
        M::Struct(vec![("n".to_owned(), self.n.m()), ("a_longer".to_owned(), self.a_longer.m()), ("m".to_owned(), self.m.m())])
    }
    fn hidden(&self) -> Vec<u8> {
        vec![]
    }
    fn vals(n: usize, d: usize) -> Vec<Self> {
        let l0 = <u8 as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); let l1 = <u16 as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); let l2 = <u8 as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); combos(&[l0.len(), l1.len(), l2.len()], n.max(1)).into_iter().map(|c: Vec<usize>| Self { n: l0[c[0]].dup(), a_longer: l1[c[1]].dup(), m: l2[c[2]].dup() }).collect::<Vec<Self>>()
    }
    fn into_v(self) -> Option<Value> { Some(self.into()) }
    fn dup(&self) -> Self {
        Self { n: self.n.dup(), a_longer: self.a_longer.dup(), m: self.m.dup() }
    }
    fn dfmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        std::fmt::Debug::fmt(self, f)
    }
}

#[allow(dead_code)]
#[derive(Reflect, Clone, Debug)]
pub enum PermE3 {
    Z {
        n: u8,
        a_longer: u16,
        m: u8,
    },
    W {
        m: u8,
        n: u8,
    },
    A,
}
#[allow(unused_variables, unused_mut, clippy::all)]
impl Modeled for PermE3 {
    fn t() -> T {
        T::Enum { name: std::any::type_name::<Self>(), variants: vec![VariantT { name: "Z", kind: VK::Struct, fields: vec![FieldT { name: Some("n"), ty: <u8 as Modeled>::t, with: None, meta: vec![], docs: vec![] }, FieldT { name: Some("a_longer"), ty: <u16 as Modeled>::t, with: None, meta: vec![], docs: vec![] }, FieldT { name: Some("m"), ty: <u8 as Modeled>::t, with: None, meta: vec![], docs: vec![] }], meta: vec![], docs: vec![] }, VariantT { name: "W", kind: VK::Struct, fields: vec![FieldT { name: Some("m"), ty: <u8 as Modeled>::t, with: None, meta: vec![], docs: vec![] }, FieldT { name: Some("n"), ty: <u8 as Modeled>::t, with: None, meta: vec![], docs: vec![] }], meta: vec![], docs: vec![] }, VariantT { name: "A", kind: VK::Unit, fields: vec![], meta: vec![], docs: vec![] }], skipped: vec![], meta: vec![], docs: vec![] }
    }
    fn m(&self) -> M {
        match self {
            Self::Z { n: x0, a_longer: x1, m: x2 } => M::Enum("Z".into(), VK::Struct, vec![(Some("n".into()), x0.m()), (Some("a_longer".into()), x1.m()), (Some("m".into()), x2.m())]),
            Self::W { m: x0, n: x1 } => M::Enum("W".into(), VK::Struct, vec![(Some("m".into()), x0.m()), (Some("n".into()), x1.m())]),
            Self::A => M::Enum("A".into(), VK::Unit, vec![]),
        }
    }
    fn hidden(&self) -> Vec<u8> {
        match self {
            _ => vec![],
        }
    }
    fn vals(n: usize, d: usize) -> Vec<Self> {
        let mut per: Vec<Vec<Self>> = vec![];
        per.push({ let l0 = <u8 as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); let l1 = <u16 as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); let l2 = <u8 as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); combos(&[l0.len(), l1.len(), l2.len()], n.max(1)).into_iter().map(|c: Vec<usize>| Self::Z { n: l0[c[0]].dup(), a_longer: l1[c[1]].dup(), m: l2[c[2]].dup() }).collect::<Vec<Self>>() });
        per.push({ let l0 = <u8 as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); let l1 = <u8 as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); combos(&[l0.len(), l1.len()], n.max(1)).into_iter().map(|c: Vec<usize>| Self::W { m: l0[c[0]].dup(), n: l1[c[1]].dup() }).collect::<Vec<Self>>() });
        per.push(vec![Self::A]);
        interleave(per, n)
    }
    fn into_v(self) -> Option<Value> { Some(self.into()) }
    fn dup(&self) -> Self {
        match self {
            Self::Z { n: x0, a_longer: x1, m: x2 } => Self::Z { n: x0.dup(), a_longer: x1.dup(), m: x2.dup() },
            Self::W { m: x0, n: x1 } => Self::W { m: x0.dup(), n: x1.dup() },
            Self::A => Self::A,
        }
    }
    fn dfmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        std::fmt::Debug::fmt(self, f)
    }
}

#[allow(dead_code)]
#[derive(Reflect, Clone, Debug)]
pub struct Perm4 {
    pub a_longer: u8,
    pub m: u16,
    pub n: u8,
}
#[allow(unused_variables, unused_mut, clippy::all)]
impl Modeled for Perm4 {
    fn t() -> T {
        T::Struct { name: std::any::type_name::<Self>(), fields: vec![FieldT { name: Some("a_longer"), ty: <u8 as Modeled>::t, with: None, meta: vec![], docs: vec![] }, FieldT { name: Some("m"), ty: <u16 as Modeled>::t, with: None, meta: vec![], docs: vec![] }, FieldT { name: Some("n"), ty: <u8 as Modeled>::t, with: None, meta: vec![], docs: vec![] }], meta: vec![], docs: vec![] }
    }
    fn m(&self) -> M {
        M::Struct(vec![("a_longer".to_owned(), self.a_longer.m()), ("m".to_owned(), self.m.m()), ("n".to_owned(), self.n.m())])
    }
    fn hidden(&self) -> Vec<u8> {
        vec![]
    }
    fn vals(n: usize, d: usize) -> Vec<Self> {
        let l0 = <u8 as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); let l1 = <u16 as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); let l2 = <u8 as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); combos(&[l0.len(), l1.len(), l2.len()], n.max(1)).into_iter().map(|c: Vec<usize>| Self { a_longer: l0[c[0]].dup(), m: l1[c[1]].dup(), n: l2[c[2]].dup() }).collect::<Vec<Self>>()
    }
    fn into_v(self) -> Option<Value> { Some(self.into()) }
    fn dup(&self) -> Self {
        Self { a_longer: self.a_longer.dup(), m: self.m.dup(), n: self.n.dup() }
    }
    fn dfmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        std::fmt::Debug::fmt(self, f)
    }
}

#[allow(dead_code)]
#[derive(Reflect, Clone, Debug)]
pub enum PermE4 {
    Y {
        a_longer: u8,
        m: u16,
        n: u8,
    },
    W {
        n: u8,
        a_longer: u8,
    },
    A,
}
#[allow(unused_variables, unused_mut, clippy::all)]
impl Modeled for PermE4 {
    fn t() -> T {
        T::Enum { name: std::any::type_name::<Self>(), variants: vec![VariantT { name: "Y", kind: VK::Struct, fields: vec![FieldT { name: Some("a_longer"), ty: <u8 as Modeled>::t, with: None, meta: vec![], docs: vec![] }, FieldT { name: Some("m"), ty: <u16 as Modeled>::t, with: None, meta: vec![], docs: vec![] }, FieldT { name: Some("n"), ty: <u8 as Modeled>::t, with: None, meta: vec![], docs: vec![] }], meta: vec![], docs: vec![] }, VariantT { name: "W", kind: VK::Struct, fields: vec![FieldT { name: Some("n"), ty: <u8 as Modeled>::t, with: None, meta: vec![], docs: vec![] }, FieldT { name: Some("a_longer"), ty: <u8 as Modeled>::t, with: None, meta: vec![], docs: vec![] }], meta: vec![], docs: vec![] }, VariantT { name: "A", kind: VK::Unit, fields: vec![], meta: vec![], docs: vec![] }], skipped: vec![], meta: vec![], docs: vec![] }
    }
    fn m(&self) -> M {
        match self {
            Self::Y { a_longer: x0, m: x1, n: x2 } => M::Enum("Y".into(), VK::Struct, vec![(Some("a_longer".into()), x0.m()), (Some("m".into()), x1.m()), (Some("n".into()), x2.m())]),
            Self::W { n: x0, a_longer: x1 } => M::Enum("W".into(), VK::Struct, vec![(Some("n".into()), x0.m()), (Some("a_longer".into()), x1.m())]),
            Self::A => M::Enum("A".into(), VK::Unit, vec![]),
        }
    }
    fn hidden(&self) -> Vec<u8> {
        match self {
            _ => vec![],
        }
    }
    fn vals(n: usize, d: usize) -> Vec<Self> {
        let mut per: Vec<Vec<Self>> = vec![];
        per.push({ let l0 = <u8 as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); let l1 = <u16 as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); let l2 = <u8 as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); combos(&[l0.len(), l1.len(), l2.len()], n.max(1)).into_iter().map(|c: Vec<usize>| Self::Y { a_longer: l0[c[0]].dup(), m: l1[c[1]].dup(), n: l2[c[2]].dup() }).collect::<Vec<Self>>() });
        per.push({ let l0 = <u8 as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); let l1 = <u8 as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); combos(&[l0.len(), l1.len()], n.max(1)).into_iter().map(|c: Vec<usize>| Self::W { n: l0[c[0]].dup(), a_longer: l1[c[1]].dup() }).collect::<Vec<Self>>() });
        per.push(vec![Self::A]);
        interleave(per, n)
    }
    fn into_v(self) -> Option<Value> { Some(self.into()) }
    fn dup(&self) -> Self {
        match self {
            Self::Y { a_longer: x0, m: x1, n: x2 } => Self::Y { a_longer: x0.dup(), m: x1.dup(), n: x2.dup() },
            Self::W { n: x0, a_longer: x1 } => Self::W { n: x0.dup(), a_longer: x1.dup() },
            Self::A => Self::A,
        }
    }
    fn dfmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        std::fmt::Debug::fmt(self, f)
    }
}

#[allow(dead_code)]
#[derive(Reflect, Clone, Debug)]
pub struct Perm5 {
    pub a_longer: u8,
    pub n: u16,
    pub m: u8,
}
#[allow(unused_variables, unused_mut, clippy::all)]
impl Modeled for Perm5 {
    fn t() -> T {
        T::Struct { name: std::any::type_name::<Self>(), fields: vec![FieldT { name: Some("a_longer"), ty: <u8 as Modeled>::t, with: None, meta: vec![], docs: vec![] }, FieldT { name: Some("n"), ty: <u16 as Modeled>::t, with: None, meta: vec![], docs: vec![] }, FieldT { name: Some("m"), ty: <u8 as Modeled>::t, with: None, meta: vec![], docs: vec![] }], meta: vec![], docs: vec![] }
    }
    fn m(&self) -> M {
        M::Struct(vec![("a_longer".to_owned(), self.a_longer.m()), ("n".to_owned(), self.n.m()), ("m".to_owned(), self.m.m())])
    }
    fn hidden(&self) -> Vec<u8> {
        vec![]
    }
    fn vals(n: usize, d: usize) -> Vec<Self> {
        let l0 = <u8 as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); let l1 = <u16 as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); let l2 = <u8 as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); combos(&[l0.len(), l1.len(), l2.len()], n.max(1)).into_iter().map(|c: Vec<usize>| Self { a_longer: l0[c[0]].dup(), n: l1[c[1]].dup(), m: l2[c[2]].dup() }).collect::<Vec<Self>>()
    }
    fn into_v(self) -> Option<Value> { Some(self.into()) }
    fn dup(&self) -> Self {
        Self { a_longer: self.a_longer.dup(), n: self.n.dup(), m: self.m.dup() }
    }
    fn dfmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        std::fmt::Debug::fmt(self, f)
    }
}

#[allow(dead_code)]
#[derive(Reflect, Clone, Debug)]
pub enum PermE5 {
    X {
        a_longer: u8,
        n: u16,
        m: u8,
    },
    W {
        m: u8,
        a_longer: u8,
    },
    A,
}
#[allow(unused_variables, unused_mut, clippy::all)]
impl Modeled for PermE5 {
    fn t() -> T {
        T::Enum { name: std::any::type_name::<Self>(), variants: vec![VariantT { name: "X", kind: VK::Struct, fields: vec![FieldT { name: Some("a_longer"), ty: <u8 as Modeled>::t, with: None, meta: vec![], docs: vec![] }, FieldT { name: Some("n"), ty: <u16 as Modeled>::t, with: None, meta: vec![], docs: vec![] }, FieldT { name: Some("m"), ty: <u8 as Modeled>::t, with: None, meta: vec![], docs: vec![] }], meta: vec![], docs: vec![] }, VariantT { name: "W", kind: VK::Struct, fields: vec![FieldT { name: Some("m"), ty: <u8 as Modeled>::t, with: None, meta: vec![], docs: vec![] }, FieldT { name: Some("a_longer"), ty: <u8 as Modeled>::t, with: None, meta: vec![], docs: vec![] }], meta: vec![], docs: vec![] }, VariantT { name: "A", kind: VK::Unit, fields: vec![], meta: vec![], docs: vec![] }], skipped: vec![], meta: vec![], docs: vec![] }
    }
    fn m(&self) -> M {
        match self {
            Self::X { a_longer: x0, n: x1, m: x2 } => M::Enum("X".into(), VK::Struct, vec![(Some("a_longer".into()), x0.m()), (Some("n".into()), x1.m()), (Some("m".into()), x2.m())]),
            Self::W { m: x0, a_longer: x1 } => M::Enum("W".into(), VK::Struct, vec![(Some("m".into()), x0.m()), (Some("a_longer".into()), x1.m())]),
            Self::A => M::Enum("A".into(), VK::Unit, vec![]),
        }
    }
    fn hidden(&self) -> Vec<u8> {
        match self {
            _ => vec![],
        }
    }
    fn vals(n: usize, d: usize) -> Vec<Self> {
        let mut per: Vec<Vec<Self>> = vec![];
        per.push({ let l0 = <u8 as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); let l1 = <u16 as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); let l2 = <u8 as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); combos(&[l0.len(), l1.len(), l2.len()], n.max(1)).into_iter().map(|c: Vec<usize>| Self::X { a_longer: l0[c[0]].dup(), n: l1[c[1]].dup(), m: l2[c[2]].dup() }).collect::<Vec<Self>>() });
        per.push({ let l0 = <u8 as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); let l1 = <u8 as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); combos(&[l0.len(), l1.len()], n.max(1)).into_iter().map(|c: Vec<usize>| Self::W { m: l0[c[0]].dup(), a_longer: l1[c[1]].dup() }).collect::<Vec<Self>>() });
        per.push(vec![Self::A]);
        interleave(per, n)
    }
    fn into_v(self) -> Option<Value> { Some(self.into()) }
    fn dup(&self) -> Self {
        match self {
            Self::X { a_longer: x0, n: x1, m: x2 } => Self::X { a_longer: x0.dup(), n: x1.dup(), m: x2.dup() },
            Self::W { m: x0, a_longer: x1 } => Self::W { m: x0.dup(), a_longer: x1.dup() },
            Self::A => Self::A,
        }
    }
    fn dfmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        std::fmt::Debug::fmt(self, f)
    }
}

#[allow(dead_code)]
#[derive(Reflect, Clone, Debug)]
pub struct Wide20 {
    pub l: u8,
    pub k: String,
    pub aa: i32,
    pub j: u8,
    pub i2: bool,
    pub i10: u8,
    pub b: Option<u8>,
    pub c: u16,
    pub h: u8,
    pub g: Vec<u8>,
    pub f: u8,
    pub e: u8,
    pub d: String,
    pub a: i32,
    pub zz: u8,
    pub z: bool,
    pub m: u8,
    pub yy: Option<u8>,
    pub y: u16,
    pub n: u8,
}
#[allow(unused_variables, unused_mut, clippy::all)]
impl Modeled for Wide20 {
    fn t() -> T {
        T::Struct { name: std::any::type_name::<Self>(), fields: vec![FieldT { name: Some("l"), ty: <u8 as Modeled>::t, with: None, meta: vec![], docs: vec![] }, FieldT { name: Some("k"), ty: <String as Modeled>::t, with: None, meta: vec![], docs: vec![] }, FieldT { name: Some("aa"), ty: <i32 as Modeled>::t, with: None, meta: vec![], docs: vec![] }, FieldT { name: Some("j"), ty: <u8 as Modeled>::t, with: None, meta: vec![], docs: vec![] }, FieldT { name: Some("i2"), ty: <bool as Modeled>::t, with: None, meta: vec![], docs: vec![] }, FieldT { name: Some("i10"), ty: <u8 as Modeled>::t, with: None, meta: vec![], docs: vec![] }, FieldT { name: Some("b"), ty: <Option<u8> as Modeled>::t, with: None, meta: vec![], docs: vec![] }, FieldT { name: Some("c"), ty: <u16 as Modeled>::t, with: None, meta: vec![], docs: vec![] }, FieldT { name: Some("h"), ty: <u8 as Modeled>::t, with: None, meta: vec![], docs: vec![] }, FieldT { name: Some("g"), ty: <Vec<u8> as Modeled>::t, with: None, meta: vec![], docs: vec![] }, FieldT { name: Some("f"), ty: <u8 as Modeled>::t, with: None, meta: vec![], docs: vec![] }, FieldT { name: Some("e"), ty: <u8 as Modeled>::t, with: None, meta: vec![], docs: vec![] }, FieldT { name: Some("d"), ty: <String as Modeled>::t, with: None, meta: vec![], docs: vec![] }, FieldT { name: Some("a"), ty: <i32 as Modeled>::t, with: None, meta: vec![], docs: vec![] }, FieldT { name: Some("zz"), ty: <u8 as Modeled>::t, with: None, meta: vec![], docs: vec![] }, FieldT { name: Some("z"), ty: <bool as Modeled>::t, with: None, meta: vec![], docs: vec![] }, FieldT { name: Some("m"), ty: <u8 as Modeled>::t, with: None, meta: vec![], docs: vec![] }, FieldT { name: Some("yy"), ty: <Option<u8> as Modeled>::t, with: None, meta: vec![], docs: vec![] }, FieldT { name: Some("y"), ty: <u16 as Modeled>::t, with: None, meta: vec![], docs: vec![] }, FieldT { name: Some("n"), ty: <u8 as Modeled>::t, with: None, meta: vec![], docs: vec![] }], meta: vec![], docs: vec![] }
    }
    fn m(&self) -> M {
        M::Struct(vec![("l".to_owned(), self.l.m()), ("k".to_owned(), self.k.m()), ("aa".to_owned(), self.aa.m()), ("j".to_owned(), self.j.m()), ("i2".to_owned(), self.i2.m()), ("i10".to_owned(), self.i10.m()), ("b".to_owned(), self.b.m()), ("c".to_owned(), self.c.m()), ("h".to_owned(), self.h.m()), ("g".to_owned(), self.g.m()), ("f".to_owned(), self.f.m()), ("e".to_owned(), self.e.m()), ("d".to_owned(), self.d.m()), ("a".to_owned(), self.a.m()), ("zz".to_owned(), self.zz.m()), ("z".to_owned(), self.z.m()), ("m".to_owned(), self.m.m()), ("yy".to_owned(), self.yy.m()), ("y".to_owned(), self.y.m()), ("n".to_owned(), self.n.m())])
    }
    fn hidden(&self) -> Vec<u8> {
        vec![]
    }
    fn vals(n: usize, d: usize) -> Vec<Self> {
        let l0 = <u8 as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); let l1 = <String as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); let l2 = <i32 as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); let l3 = <u8 as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); let l4 = <bool as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); let l5 = <u8 as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); let l6 = <Option<u8> as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); let l7 = <u16 as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); let l8 = <u8 as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); let l9 = <Vec<u8> as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); let l10 = <u8 as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); let l11 = <u8 as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); let l12 = <String as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); let l13 = <i32 as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); let l14 = <u8 as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); let l15 = <bool as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); let l16 = <u8 as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); let l17 = <Option<u8> as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); let l18 = <u16 as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); let l19 = <u8 as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); combos(&[l0.len(), l1.len(), l2.len(), l3.len(), l4.len(), l5.len(), l6.len(), l7.len(), l8.len(), l9.len(), l10.len(), l11.len(), l12.len(), l13.len(), l14.len(), l15.len(), l16.len(), l17.len(), l18.len(), l19.len()], n.max(1)).into_iter().map(|c: Vec<usize>| Self { l: l0[c[0]].dup(), k: l1[c[1]].dup(), aa: l2[c[2]].dup(), j: l3[c[3]].dup(), i2: l4[c[4]].dup(), i10: l5[c[5]].dup(), b: l6[c[6]].dup(), c: l7[c[7]].dup(), h: l8[c[8]].dup(), g: l9[c[9]].dup(), f: l10[c[10]].dup(), e: l11[c[11]].dup(), d: l12[c[12]].dup(), a: l13[c[13]].dup(), zz: l14[c[14]].dup(), z: l15[c[15]].dup(), m: l16[c[16]].dup(), yy: l17[c[17]].dup(), y: l18[c[18]].dup(), n: l19[c[19]].dup() }).collect::<Vec<Self>>()
    }
    fn into_v(self) -> Option<Value> { Some(self.into()) }
    fn dup(&self) -> Self {
        Self { l: self.l.dup(), k: self.k.dup(), aa: self.aa.dup(), j: self.j.dup(), i2: self.i2.dup(), i10: self.i10.dup(), b: self.b.dup(), c: self.c.dup(), h: self.h.dup(), g: self.g.dup(), f: self.f.dup(), e: self.e.dup(), d: self.d.dup(), a: self.a.dup(), zz: self.zz.dup(), z: self.z.dup(), m: self.m.dup(), yy: self.yy.dup(), y: self.y.dup(), n: self.n.dup() }
    }
    fn dfmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        std::fmt::Debug::fmt(self, f)
    }
}

#[allow(dead_code)]
#[derive(Reflect, Clone, Debug)]
pub struct WideT20(
    pub u8,
    pub String,
    pub i32,
    pub u8,
    pub bool,
    pub u8,
    pub Option<u8>,
    pub u16,
    pub u8,
    pub Vec<u8>,
    pub u8,
    pub u8,
    pub String,
    pub i32,
    pub u8,
    pub bool,
    pub u8,
    pub Option<u8>,
    pub u16,
    pub u8,
);
#[allow(unused_variables, unused_mut, clippy::all)]
impl Modeled for WideT20 {
    fn t() -> T {
        T::TupleStruct { name: std::any::type_name::<Self>(), fields: vec![FieldT { name: None, ty: <u8 as Modeled>::t, with: None, meta: vec![], docs: vec![] }, FieldT { name: None, ty: <String as Modeled>::t, with: None, meta: vec![], docs: vec![] }, FieldT { name: None, ty: <i32 as Modeled>::t, with: None, meta: vec![], docs: vec![] }, FieldT { name: None, ty: <u8 as Modeled>::t, with: None, meta: vec![], docs: vec![] }, FieldT { name: None, ty: <bool as Modeled>::t, with: None, meta: vec![], docs: vec![] }, FieldT { name: None, ty: <u8 as Modeled>::t, with: None, meta: vec![], docs: vec![] }, FieldT { name: None, ty: <Option<u8> as Modeled>::t, with: None, meta: vec![], docs: vec![] }, FieldT { name: None, ty: <u16 as Modeled>::t, with: None, meta: vec![], docs: vec![] }, FieldT { name: None, ty: <u8 as Modeled>::t, with: None, meta: vec![], docs: vec![] }, FieldT { name: None, ty: <Vec<u8> as Modeled>::t, with: None, meta: vec![], docs: vec![] }, FieldT { name: None, ty: <u8 as Modeled>::t, with: None, meta: vec![], docs: vec![] }, FieldT { name: None, ty: <u8 as Modeled>::t, with: None, meta: vec![], docs: vec![] }, FieldT { name: None, ty: <String as Modeled>::t, with: None, meta: vec![], docs: vec![] }, FieldT { name: None, ty: <i32 as Modeled>::t, with: None, meta: vec![], docs: vec![] }, FieldT { name: None, ty: <u8 as Modeled>::t, with: None, meta: vec![], docs: vec![] }, FieldT { name: None, ty: <bool as Modeled>::t, with: None, meta: vec![], docs: vec![] }, FieldT { name: None, ty: <u8 as Modeled>::t, with: None, meta: vec![], docs: vec![] }, FieldT { name: None, ty: <Option<u8> as Modeled>::t, with: None, meta: vec![], docs: vec![] }, FieldT { name: None, ty: <u16 as Modeled>::t, with: None, meta: vec![], docs: vec![] }, FieldT { name: None, ty: <u8 as Modeled>::t, with: None, meta: vec![], docs: vec![] }], meta: vec![], docs: vec![] }
    }
    fn m(&self) -> M {
        M::TupleStruct(vec![self.0.m(), self.1.m(), self.2.m(), self.3.m(), self.4.m(), self.5.m(), self.6.m(), self.7.m(), self.8.m(), self.9.m(), self.10.m(), self.11.m(), self.12.m(), self.13.m(), self.14.m(), self.15.m(), self.16.m(), self.17.m(), self.18.m(), self.19.m()])
    }
    fn hidden(&self) -> Vec<u8> {
        vec![]
    }
    fn vals(n: usize, d: usize) -> Vec<Self> {
        let l0 = <u8 as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); let l1 = <String as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); let l2 = <i32 as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); let l3 = <u8 as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); let l4 = <bool as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); let l5 = <u8 as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); let l6 = <Option<u8> as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); let l7 = <u16 as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); let l8 = <u8 as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); let l9 = <Vec<u8> as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); let l10 = <u8 as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); let l11 = <u8 as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); let l12 = <String as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); let l13 = <i32 as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); let l14 = <u8 as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); let l15 = <bool as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); let l16 = <u8 as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); let l17 = <Option<u8> as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); let l18 = <u16 as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); let l19 = <u8 as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); combos(&[l0.len(), l1.len(), l2.len(), l3.len(), l4.len(), l5.len(), l6.len(), l7.len(), l8.len(), l9.len(), l10.len(), l11.len(), l12.len(), l13.len(), l14.len(), l15.len(), l16.len(), l17.len(), l18.len(), l19.len()], n.max(1)).into_iter().map(|c: Vec<usize>| Self(l0[c[0]].dup(), l1[c[1]].dup(), l2[c[2]].dup(), l3[c[3]].dup(), l4[c[4]].dup(), l5[c[5]].dup(), l6[c[6]].dup(), l7[c[7]].dup(), l8[c[8]].dup(), l9[c[9]].dup(), l10[c[10]].dup(), l11[c[11]].dup(), l12[c[12]].dup(), l13[c[13]].dup(), l14[c[14]].dup(), l15[c[15]].dup(), l16[c[16]].dup(), l17[c[17]].dup(), l18[c[18]].dup(), l19[c[19]].dup())).collect::<Vec<Self>>()
    }
    fn into_v(self) -> Option<Value> { Some(self.into()) }
    fn dup(&self) -> Self {
        Self(self.0.dup(), self.1.dup(), self.2.dup(), self.3.dup(), self.4.dup(), self.5.dup(), self.6.dup(), self.7.dup(), self.8.dup(), self.9.dup(), self.10.dup(), self.11.dup(), self.12.dup(), self.13.dup(), self.14.dup(), self.15.dup(), self.16.dup(), self.17.dup(), self.18.dup(), self.19.dup())
    }
    fn dfmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        std::fmt::Debug::fmt(self, f)
    }
}

#[allow(dead_code)]
#[derive(Reflect, Clone, Debug)]
pub enum WideE20 {
    Lv,
    Kv {
        l: u8,
    },
    AAv(
        u8,
        String,
    ),
    Jv,
    I2v {
        l: u8,
        k: String,
        aa: i32,
        j: u8,
    },
    I10v(
        u8,
        String,
        i32,
        u8,
        bool,
    ),
    Bv,
    Cv {
        l: u8,
        k: String,
        aa: i32,
        j: u8,
        i2: bool,
        i10: u8,
        b: Option<u8>,
    },
    Hv(
        u8,
        String,
        i32,
        u8,
        bool,
        u8,
        Option<u8>,
        u16,
    ),
    Gv,
    Fv {
        l: u8,
        k: String,
        aa: i32,
        j: u8,
        i2: bool,
        i10: u8,
        b: Option<u8>,
        c: u16,
        h: u8,
        g: Vec<u8>,
    },
    Ev(
        u8,
        String,
        i32,
        u8,
        bool,
        u8,
        Option<u8>,
        u16,
        u8,
        Vec<u8>,
        u8,
    ),
    Dv,
    Av {
        l: u8,
        k: String,
        aa: i32,
        j: u8,
        i2: bool,
        i10: u8,
        b: Option<u8>,
        c: u16,
        h: u8,
        g: Vec<u8>,
        f: u8,
        e: u8,
        d: String,
    },
    ZZv(
        u8,
        String,
        i32,
        u8,
        bool,
        u8,
        Option<u8>,
        u16,
        u8,
        Vec<u8>,
        u8,
        u8,
        String,
        i32,
    ),
    Zv,
    Mv {
        l: u8,
        k: String,
        aa: i32,
        j: u8,
        i2: bool,
        i10: u8,
        b: Option<u8>,
        c: u16,
        h: u8,
        g: Vec<u8>,
        f: u8,
        e: u8,
        d: String,
        a: i32,
        zz: u8,
        z: bool,
    },
    YYv(
        u8,
        String,
        i32,
        u8,
        bool,
        u8,
        Option<u8>,
        u16,
        u8,
        Vec<u8>,
        u8,
        u8,
        String,
        i32,
        u8,
        bool,
        u8,
    ),
    Yv,
    Nv {
        l: u8,
        k: String,
        aa: i32,
        j: u8,
        i2: bool,
        i10: u8,
        b: Option<u8>,
        c: u16,
        h: u8,
        g: Vec<u8>,
        f: u8,
        e: u8,
        d: String,
        a: i32,
        zz: u8,
        z: bool,
        m: u8,
        yy: Option<u8>,
        y: u16,
    },
    WholeS {
        l: u8,
        k: String,
        aa: i32,
        j: u8,
        i2: bool,
        i10: u8,
        b: Option<u8>,
        c: u16,
        h: u8,
        g: Vec<u8>,
        f: u8,
        e: u8,
        d: String,
        a: i32,
        zz: u8,
        z: bool,
        m: u8,
        yy: Option<u8>,
        y: u16,
        n: u8,
    },
    WholeT(
        u8,
        String,
        i32,
        u8,
        bool,
        u8,
        Option<u8>,
        u16,
        u8,
        Vec<u8>,
        u8,
        u8,
        String,
        i32,
        u8,
        bool,
        u8,
        Option<u8>,
        u16,
        u8,
    ),
}
#[allow(unused_variables, unused_mut, clippy::all)]
impl Modeled for WideE20 {
    fn t() -> T {
        T::Enum { name: std::any::type_name::<Self>(), variants: vec![VariantT { name: "Lv", kind: VK::Unit, fields: vec![], meta: vec![], docs: vec![] }, VariantT { name: "Kv", kind: VK::Struct, fields: vec![FieldT { name: Some("l"), ty: <u8 as Modeled>::t, with: None, meta: vec![], docs: vec![] }], meta: vec![], docs: vec![] }, VariantT { name: "AAv", kind: VK::Tuple, fields: vec![FieldT { name: None, ty: <u8 as Modeled>::t, with: None, meta: vec![], docs: vec![] }, FieldT { name: None, ty: <String as Modeled>::t, with: None, meta: vec![], docs: vec![] }], meta: vec![], docs: vec![] }, VariantT { name: "Jv", kind: VK::Unit, fields: vec![], meta: vec![], docs: vec![] }, VariantT { name: "I2v", kind: VK::Struct, fields: vec![FieldT { name: Some("l"), ty: <u8 as Modeled>::t, with: None, meta: vec![], docs: vec![] }, FieldT { name: Some("k"), ty: <String as Modeled>::t, with: None, meta: vec![], docs: vec![] }, FieldT { name: Some("aa"), ty: <i32 as Modeled>::t, with: None, meta: vec![], docs: vec![] }, FieldT { name: Some("j"), ty: <u8 as Modeled>::t, with: None, meta: vec![], docs: vec![] }], meta: vec![], docs: vec![] }, VariantT { name: "I10v", kind: VK::Tuple, fields: vec![FieldT { name: None, ty: <u8 as Modeled>::t, with: None, meta: vec![], docs: vec![] }, FieldT { name: None, ty: <String as Modeled>::t, with: None, meta: vec![], docs: vec![] }, FieldT { name: None, ty: <i32 as Modeled>::t, with: None, meta: vec![], docs: vec![] }, FieldT { name: None, ty: <u8 as Modeled>::t, with: None, meta: vec![], docs: vec![] }, FieldT { name: None, ty: <bool as Modeled>::t, with: None, meta: vec![], docs: vec![] }], meta: vec![], docs: vec![] }, VariantT { name: "Bv", kind: VK::Unit, fields: vec![], meta: vec![], docs: vec![] }, VariantT { name: "Cv", kind: VK::Struct, fields: vec![FieldT { name: Some("l"), ty: <u8 as Modeled>::t, with: None, meta: vec![], docs: vec![] }, FieldT { name: Some("k"), ty: <String as Modeled>::t, with: None, meta: vec![], docs: vec![] }, FieldT { name: Some("aa"), ty: <i32 as Modeled>::t, with: None, meta: vec![], docs: vec![] }, FieldT { name: Some("j"), ty: <u8 as Modeled>::t, with: None, meta: vec![], docs: vec![] }, FieldT { name: Some("i2"), ty: <bool as Modeled>::t, with: None, meta: vec![], docs: vec![] }, FieldT { name: Some("i10"), ty: <u8 as Modeled>::t, with: None, meta: vec![], docs: vec![] }, FieldT { name: Some("b"), ty: <Option<u8> as Modeled>::t, with: None, meta: vec![], docs: vec![] }], meta: vec![], docs: vec![] }, VariantT { name: "Hv", kind: VK::Tuple, fields: vec![FieldT { name: None, ty: <u8 as Modeled>::t, with: None, meta: vec![], docs: vec![] }, FieldT { name: None, ty: <String as Modeled>::t, with: None, meta: vec![], docs: vec![] }, FieldT { name: None, ty: <i32 as Modeled>::t, with: None, meta: vec![], docs: vec![] }, FieldT { name: None, ty: <u8 as Modeled>::t, with: None, meta: vec![], docs: vec![] }, FieldT { name: None, ty: <bool as Modeled>::t, with: None, meta: vec![], docs: vec![] }, FieldT { name: None, ty: <u8 as Modeled>::t, with: None, meta: vec![], docs: vec![] }, FieldT { name: None, ty: <Option<u8> as Modeled>::t, with: None, meta: vec![], docs: vec![] }, FieldT { name: None, ty: <u16 as Modeled>::t, with: None, meta: vec![], docs: vec![] }], meta: vec![], docs: vec![] }, VariantT { name: "Gv", kind: VK::Unit, fields: vec![], meta: vec![], docs: vec![] }, VariantT { name: "Fv", kind: VK::Struct, fields: vec![FieldT { name: Some("l"), ty: <u8 as Modeled>::t, with: None, meta: vec![], docs: vec![] }, FieldT { name: Some("k"), ty: <String as Modeled>::t, with: None, meta: vec![], docs: vec![] }, FieldT { name: Some("aa"), ty: <i32 as Modeled>::t, with: None, meta: vec![], docs: vec![] }, FieldT { name: Some("j"), ty: <u8 as Modeled>::t, with: None, meta: vec![], docs: vec![] }, FieldT { name: Some("i2"), ty: <bool as Modeled>::t, with: None, meta: vec![], docs: vec![] }, FieldT { name: Some("i10"), ty: <u8 as Modeled>::t, with: None, meta: vec![], docs: vec![] }, FieldT { name: Some("b"), ty: <Option<u8> as Modeled>::t, with: None, meta: vec![], docs: vec![] }, FieldT { name: Some("c"), ty: <u16 as Modeled>::t, with: None, meta: vec![], docs: vec![] }, FieldT { name: Some("h"), ty: <u8 as Modeled>::t, with: None, meta: vec![], docs: vec![] }, FieldT { name: Some("g"), ty: <Vec<u8> as Modeled>::t, with: None, meta: vec![], docs: vec![] }], meta: vec![], docs: vec![] }, VariantT { name: "Ev", kind: VK::Tuple, fields: vec![FieldT { name: None, ty: <u8 as Modeled>::t, with: None, meta: vec![], docs: vec![] }, FieldT { name: None, ty: <String as Modeled>::t, with: None, meta: vec![], docs: vec![] }, FieldT { name: None, ty: <i32 as Modeled>::t, with: None, meta: vec![], docs: vec![] }, FieldT { name: None, ty: <u8 as Modeled>::t, with: None, meta: vec![], docs: vec![] }, FieldT { name: None, ty: <bool as Modeled>::t, with: None, meta: vec![], docs: vec![] }, FieldT { name: None, ty: <u8 as Modeled>::t, with: None, meta: vec![], docs: vec![] }, FieldT { name: None, ty: <Option<u8> as Modeled>::t, with: None, meta: vec![], docs: vec![] }, FieldT { name: None, ty: <u16 as Modeled>::t, with: None, meta: vec![], docs: vec![] }, FieldT { name: None, ty: <u8 as Modeled>::t, with: None, meta: vec![], docs: vec![] }, FieldT { name: None, ty: <Vec<u8> as Modeled>::t, with: None, meta: vec![], docs: vec![] }, FieldT { name: None, ty: <u8 as Modeled>::t, with: None, meta: vec![], docs: vec![] }], meta: vec![], docs: vec![] }, VariantT { name: "Dv", kind: VK::Unit, fields: vec![], meta: vec![], docs: vec![] }, VariantT { name: "Av", kind: VK::Struct, fields: vec![FieldT { name: Some("l"), ty: <u8 as Modeled>::t, with: None, meta: vec![], docs: vec![] }, FieldT { name: Some("k"), ty: <String as Modeled>::t, with: None, meta: vec![], docs: vec![] }, FieldT { name: Some("aa"), ty: <i32 as Modeled>::t, with: None, meta: vec![], docs: vec![] }, FieldT { name: Some("j"), ty: <u8 as Modeled>::t, with: None, meta: vec![], docs: vec![] }, FieldT { name: Some("i2"), ty: <bool as Modeled>::t, with: None, meta: vec![], docs: vec![] }, FieldT { name: Some("i10"), ty: <u8 as Modeled>::t, with: None, meta: vec![], docs: vec![] }, FieldT { name: Some("b"), ty: <Option<u8> as Modeled>::t, with: None, meta: vec![], docs: vec![] }, FieldT { name: Some("c"), ty: <u16 as Modeled>::t, with: None, meta: vec![], docs: vec![] }, FieldT { name: Some("h"), ty: <u8 as Modeled>::t, with: None, meta: vec![], docs: vec![] }, FieldT { name: Some("g"), ty: <Vec<u8> as Modeled>::t, with: None, meta: vec![], docs: vec![] }, FieldT { name: Some("f"), ty: <u8 as Modeled>::t, with: None, meta: vec![], docs: vec![] }, FieldT { name: Some("e"), ty: <u8 as Modeled>::t, with: None, meta: vec![], docs: vec![] }, FieldT { name: Some("d"), ty: <String as Modeled>::t, with: None, meta: vec![], docs: vec![] }], meta: vec![], docs: vec![] }, VariantT { name: "ZZv", kind: VK::Tuple, fields: vec![FieldT { name: None, ty: <u8 as Modeled>::t, with: None, meta: vec![], docs: vec![] }, FieldT { name: None, ty: <String as Modeled>::t, with: None, meta: vec![], docs: vec![] }, FieldT { name: None, ty: <i32 as Modeled>::t, with: None, meta: vec![], docs: vec![] }, FieldT { name: None, ty: <u8 as Modeled>::t, with: None, meta: vec![], docs: vec![] }, FieldT { name: None, ty: <bool as Modeled>::t, with: None, meta: vec![], docs: vec![] }, FieldT { name: None, ty: <u8 as Modeled>::t, with: None, meta: vec![], docs: vec![] }, FieldT { name: None, ty: <Option<u8> as Modeled>::t, with: None, meta: vec![], docs: vec![] }, FieldT { name: None, ty: <u16 as Modeled>::t, with: None, meta: vec![], docs: vec![] }, FieldT { name: None, ty: <u8 as Modeled>::t, with: None, meta: vec![], docs: vec![] }, FieldT { name: None, ty: <Vec<u8> as Modeled>::t, with: None, meta: vec![], docs: vec![] }, FieldT { name: None, ty: <u8 as Modeled>::t, with: None, meta: vec![], docs: vec![] }, FieldT { name: None, ty: <u8 as Modeled>::t, with: None, meta: vec![], docs: vec![] }, FieldT { name: None, ty: <String as Modeled>::t, with: None, meta: vec![], docs: vec![] }, FieldT { name: None, ty: <i32 as Modeled>::t, with: None, meta: vec![], docs: vec![] }], meta: vec![], docs: vec![] }, VariantT { name: "Zv", kind: VK::Unit, fields: vec![], meta: vec![], docs: vec![] }, VariantT { name: "Mv", kind: VK::Struct, fields: vec![FieldT { name: Some("l"), ty: <u8 as Modeled>::t, with: None, meta: vec![], docs: vec![] }, FieldT { name: Some("k"), ty: <String as Modeled>::t, with: None, meta: vec![], docs: vec![] }, FieldT { name: Some("aa"), ty: <i32 as Modeled>::t, with: None, meta: vec![], docs: vec![] }, FieldT { name: Some("j"), ty: <u8 as Modeled>::t, with: None, meta: vec![], docs: vec![] }, FieldT { name: Some("i2"), ty: <bool as Modeled>::t, with: None, meta: vec![], docs: vec![] }, FieldT { name: Some("i10"), ty: <u8 as Modeled>::t, with: None, meta: vec![], docs: vec![] }, FieldT { name: Some("b"), ty: <Option<u8> as Modeled>::t, with: None, meta: vec![], docs: vec![] }, FieldT { name: Some("c"), ty: <u16 as Modeled>::t, with: None, meta: vec![], docs: vec![] }, FieldT { name: Some("h"), ty: <u8 as Modeled>::t, with: None, meta: vec![], docs: vec![] }, FieldT { name: Some("g"), ty: <Vec<u8> as Modeled>::t, with: None, meta: vec![], docs: vec![] }, FieldT { name: Some("f"), ty: <u8 as Modeled>::t, with: None, meta: vec![], docs: vec![] }, FieldT { name: Some("e"), ty: <u8 as Modeled>::t, with: None, meta: vec![], docs: vec![] }, FieldT { name: Some("d"), ty: <String as Modeled>::t, with: None, meta: vec![], docs: vec![] }, FieldT { name: Some("a"), ty: <i32 as Modeled>::t, with: None, meta: vec![], docs: vec![] }, FieldT { name: Some("zz"), ty: <u8 as Modeled>::t, with: None, meta: vec![], docs: vec![] }, FieldT { name: Some("z"), ty: <bool as Modeled>::t, with: None, meta: vec![], docs: vec![] }], meta: vec![], docs: vec![] }, VariantT { name: "YYv", kind: VK::Tuple, fields: vec![FieldT { name: None, ty: <u8 as Modeled>::t, with: None, meta: vec![], docs: vec![] }, FieldT { name: None, ty: <String as Modeled>::t, with: None, meta: vec![], docs: vec![] }, FieldT { name: None, ty: <i32 as Modeled>::t, with: None, meta: vec![], docs: vec![] }, FieldT { name: None, ty: <u8 as Modeled>::t, with: None, meta: vec![], docs: vec![] }, FieldT { name: None, ty: <bool as Modeled>::t, with: None, meta: vec![], docs: vec![] }, FieldT { name: None, ty: <u8 as Modeled>::t, with: None, meta: vec![], docs: vec![] }, FieldT { name: None, ty: <Option<u8> as Modeled>::t, with: None, meta: vec![], docs: vec![] }, FieldT { name: None, ty: <u16 as Modeled>::t, with: None, meta: vec![], docs: vec![] }, FieldT { name: None, ty: <u8 as Modeled>::t, with: None, meta: vec![], docs: vec![] }, FieldT { name: None, ty: <Vec<u8> as Modeled>::t, with: None, meta: vec![], docs: vec![] }, FieldT { name: None, ty: <u8 as Modeled>::t, with: None, meta: vec![], docs: vec![] }, FieldT { name: None, ty: <u8 as Modeled>::t, with: None, meta: vec![], docs: vec![] }, FieldT { name: None, ty: <String as Modeled>::t, with: None, meta: vec![], docs: vec![] }, FieldT { name: None, ty: <i32 as Modeled>::t, with: None, meta: vec![], docs: vec![] }, FieldT { name: None, ty: <u8 as Modeled>::t, with: None, meta: vec![], docs: vec![] }, FieldT { name: None, ty: <bool as Modeled>::t, with: None, meta: vec![], docs: vec![] }, FieldT { name: None, ty: <u8 as Modeled>::t, with: None, meta: vec![], docs: vec![] }], meta: vec![], docs: vec![] }, VariantT { name: "Yv", kind: VK::Unit, fields: vec![], meta: vec![], docs: vec![] }, VariantT { name: "Nv", kind: VK::Struct, fields: vec![FieldT { name: Some("l"), ty: <u8 as Modeled>::t, with: None, meta: vec![], docs: vec![] }, FieldT { name: Some("k"), ty: <String as Modeled>::t, with: None, meta: vec![], docs: vec![] }, FieldT { name: Some("aa"), ty: <i32 as Modeled>::t, with: None, meta: vec![], docs: vec![] }, FieldT { name: Some("j"), ty: <u8 as Modeled>::t, with: None, meta: vec![], docs: vec![] }, FieldT { name: Some("i2"), ty: <bool as Modeled>::t, with: None, meta: vec![], docs: vec![] }, FieldT { name: Some("i10"), ty: <u8 as Modeled>::t, with: None, meta: vec![], docs: vec![] }, FieldT { name: Some("b"), ty: <Option<u8> as Modeled>::t, with: None, meta: vec![], docs: vec![] }, FieldT { name: Some("c"), ty: <u16 as Modeled>::t, with: None, meta: vec![], docs: vec![] }, FieldT { name: Some("h"), ty: <u8 as Modeled>::t, with: None, meta: vec![], docs: vec![] }, FieldT { name: Some("g"), ty: <Vec<u8> as Modeled>::t, with: None, meta: vec![], docs: vec![] }, FieldT { name: Some("f"), ty: <u8 as Modeled>::t, with: None, meta: vec![], docs: vec![] }, FieldT { name: Some("e"), ty: <u8 as Modeled>::t, with: None, meta: vec![], docs: vec![] }, FieldT { name: Some("d"), ty: <String as Modeled>::t, with: None, meta: vec![], docs: vec![] }, FieldT { name: Some("a"), ty: <i32 as Modeled>::t, with: None, meta: vec![], docs: vec![] }, FieldT { name: Some("zz"), ty: <u8 as Modeled>::t, with: None, meta: vec![], docs: vec![] }, FieldT { name: Some("z"), ty: <bool as Modeled>::t, with: None, meta: vec![], docs: vec![] }, FieldT { name: Some("m"), ty: <u8 as Modeled>::t, with: None, meta: vec![], docs: vec![] }, FieldT { name: Some("yy"), ty: <Option<u8> as Modeled>::t, with: None, meta: vec![], docs: vec![] }, FieldT { name: Some("y"), ty: <u16 as Modeled>::t, with: None, meta: vec![], docs: vec![] }], meta: vec![], docs: vec![] }, VariantT { name: "WholeS", kind: VK::Struct, fields: vec![FieldT { name: Some("l"), ty: <u8 as Modeled>::t, with: None, meta: vec![], docs: vec![] }, FieldT { name: Some("k"), ty: <String as Modeled>::t, with: None, meta: vec![], docs: vec![] }, FieldT { name: Some("aa"), ty: <i32 as Modeled>::t, with: None, meta: vec![], docs: vec![] }, FieldT { name: Some("j"), ty: <u8 as Modeled>::t, with: None, meta: vec![], docs: vec![] }, FieldT { name: Some("i2"), ty: <bool as Modeled>::t, with: None, meta: vec![], docs: vec![] }, FieldT { name: Some("i10"), ty: <u8 as Modeled>::t, with: None, meta: vec![], docs: vec![] }, FieldT { name: Some("b"), ty: <Option<u8> as Modeled>::t, with: None, meta: vec![], docs: vec![] }, FieldT { name: Some("c"), ty: <u16 as Modeled>::t, with: None, meta: vec![], docs: vec![] }, FieldT { name: Some("h"), ty: <u8 as Modeled>::t, with: None, meta: vec![], docs: vec![] }, FieldT { name: Some("g"), ty: <Vec<u8> as Modeled>::t, with: None, meta: vec![], docs: vec![] }, FieldT { name: Some("f"), ty: <u8 as Modeled>::t, with: None, meta: vec![], docs: vec![] }, FieldT { name: Some("e"), ty: <u8 as Modeled>::t, with: None, meta: vec![], docs: vec![] }, FieldT { name: Some("d"), ty: <String as Modeled>::t, with: None, meta: vec![], docs: vec![] }, FieldT { name: Some("a"), ty: <i32 as Modeled>::t, with: None, meta: vec![], docs: vec![] }, FieldT { name: Some("zz"), ty: <u8 as Modeled>::t, with: None, meta: vec![], docs: vec![] }, FieldT { name: Some("z"), ty: <bool as Modeled>::t, with: None, meta: vec![], docs: vec![] }, FieldT { name: Some("m"), ty: <u8 as Modeled>::t, with: None, meta: vec![], docs: vec![] }, FieldT { name: Some("yy"), ty: <Option<u8> as Modeled>::t, with: None, meta: vec![], docs: vec![] }, FieldT { name: Some("y"), ty: <u16 as Modeled>::t, with: None, meta: vec![], docs: vec![] }, FieldT { name: Some("n"), ty: <u8 as Modeled>::t, with: None, meta: vec![], docs: vec![] }], meta: vec![], docs: vec![] }, VariantT { name: "WholeT", kind: VK::Tuple, fields: vec![FieldT { name: None, ty: <u8 as Modeled>::t, with: None, meta: vec![], docs: vec![] }, FieldT { name: None, ty: <String as Modeled>::t, with: None, meta: vec![], docs: vec![] }, FieldT { name: None, ty: <i32 as Modeled>::t, with: None, meta: vec![], docs: vec![] }, FieldT { name: None, ty: <u8 as Modeled>::t, with: None, meta: vec![], docs: vec![] }, FieldT { name: None, ty: <bool as Modeled>::t, with: None, meta: vec![], docs: vec![] }, FieldT { name: None, ty: <u8 as Modeled>::t, with: None, meta: vec![], docs: vec![] }, FieldT { name: None, ty: <Option<u8> as Modeled>::t, with: None, meta: vec![], docs: vec![] }, FieldT { name: None, ty: <u16 as Modeled>::t, with: None, meta: vec![], docs: vec![] }, FieldT { name: None, ty: <u8 as Modeled>::t, with: None, meta: vec![], docs: vec![] }, FieldT { name: None, ty: <Vec<u8> as Modeled>::t, with: None, meta: vec![], docs: vec![] }, FieldT { name: None, ty: <u8 as Modeled>::t, with: None, meta: vec![], docs: vec![] }, FieldT { name: None, ty: <u8 as Modeled>::t, with: None, meta: vec![], docs: vec![] }, FieldT { name: None, ty: <String as Modeled>::t, with: None, meta: vec![], docs: vec![] }, FieldT { name: None, ty: <i32 as Modeled>::t, with: None, meta: vec![], docs: vec![] }, FieldT { name: None, ty: <u8 as Modeled>::t, with: None, meta: vec![], docs: vec![] }, FieldT { name: None, ty: <bool as Modeled>::t, with: None, meta: vec![], docs: vec![] }, FieldT { name: None, ty: <u8 as Modeled>::t, with: None, meta: vec![], docs: vec![] }, FieldT { name: None, ty: <Option<u8> as Modeled>::t, with: None, meta: vec![], docs: vec![] }, FieldT { name: None, ty: <u16 as Modeled>::t, with: None, meta: vec![], docs: vec![] }, FieldT { name: None, ty: <u8 as Modeled>::t, with: None, meta: vec![], docs: vec![] }], meta: vec![], docs: vec![] }], skipped: vec![], meta: vec![], docs: vec![] }
    }
    fn m(&self) -> M {
        match self {
            Self::Lv => M::Enum("Lv".into(), VK::Unit, vec![]),
            Self::Kv { l: x0 } => M::Enum("Kv".into(), VK::Struct, vec![(Some("l".into()), x0.m())]),
            Self::AAv(x0, x1) => M::Enum("AAv".into(), VK::Tuple, vec![(None, x0.m()), (None, x1.m())]),
            Self::Jv => M::Enum("Jv".into(), VK::Unit, vec![]),
            Self::I2v { l: x0, k: x1, aa: x2, j: x3 } => M::Enum("I2v".into(), VK::Struct, vec![(Some("l".into()), x0.m()), (Some("k".into()), x1.m()), (Some("aa".into()), x2.m()), (Some("j".into()), x3.m())]),
            Self::I10v(x0, x1, x2, x3, x4) => M::Enum("I10v".into(), VK::Tuple, vec![(None, x0.m()), (None, x1.m()), (None, x2.m()), (None, x3.m()), (None, x4.m())]),
            Self::Bv => M::Enum("Bv".into(), VK::Unit, vec![]),
            Self::Cv { l: x0, k: x1, aa: x2, j: x3, i2: x4, i10: x5, b: x6 } => M::Enum("Cv".into(), VK::Struct, vec![(Some("l".into()), x0.m()), (Some("k".into()), x1.m()), (Some("aa".into()), x2.m()), (Some("j".into()), x3.m()), (Some("i2".into()), x4.m()), (Some("i10".into()), x5.m()), (Some("b".into()), x6.m())]),
            Self::Hv(x0, x1, x2, x3, x4, x5, x6, x7) => M::Enum("Hv".into(), VK::Tuple, vec![(None, x0.m()), (None, x1.m()), (None, x2.m()), (None, x3.m()), (None, x4.m()), (None, x5.m()), (None, x6.m()), (None, x7.m())]),
            Self::Gv => M::Enum("Gv".into(), VK::Unit, vec![]),
            Self::Fv { l: x0, k: x1, aa: x2, j: x3, i2: x4, i10: x5, b: x6, c: x7, h: x8, g: x9 } => M::Enum("Fv".into(), VK::Struct, vec![(Some("l".into()), x0.m()), (Some("k".into()), x1.m()), (Some("aa".into()), x2.m()), (Some("j".into()), x3.m()), (Some("i2".into()), x4.m()), (Some("i10".into()), x5.m()), (Some("b".into()), x6.m()), (Some("c".into()), x7.m()), (Some("h".into()), x8.m()), (Some("g".into()), x9.m())]),
            Self::Ev(x0, x1, x2, x3, x4, x5, x6, x7, x8, x9, x10) => M::Enum("Ev".into(), VK::Tuple, vec![(None, x0.m()), (None, x1.m()), (None, x2.m()), (None, x3.m()), (None, x4.m()), (None, x5.m()), (None, x6.m()), (None, x7.m()), (None, x8.m()), (None, x9.m()), (None, x10.m())]),
            Self::Dv => M::Enum("Dv".into(), VK::Unit, vec![]),
            Self::Av { l: x0, k: x1, aa: x2, j: x3, i2: x4, i10: x5, b: x6, c: x7, h: x8, g: x9, f: x10, e: x11, d: x12 } => M::Enum("Av".into(), VK::Struct, vec![(Some("l".into()), x0.m()), (Some("k".into()), x1.m()), (Some("aa".into()), x2.m()), (Some("j".into()), x3.m()), (Some("i2".into()), x4.m()), (Some("i10".into()), x5.m()), (Some("b".into()), x6.m()), (Some("c".into()), x7.m()), (Some("h".into()), x8.m()), (Some("g".into()), x9.m()), (Some("f".into()), x10.m()), (Some("e".into()), x11.m()), (Some("d".into()), x12.m())]),
            Self::ZZv(x0, x1, x2, x3, x4, x5, x6, x7, x8, x9, x10, x11, x12, x13) => M::Enum("ZZv".into(), VK::Tuple, vec![(None, x0.m()), (None, x1.m()), (None, x2.m()), (None, x3.m()), (None, x4.m()), (None, x5.m()), (None, x6.m()), (None, x7.m()), (None, x8.m()), (None, x9.m()), (None, x10.m()), (None, x11.m()), (None, x12.m()), (None, x13.m())]),
            Self::Zv => M::Enum("Zv".into(), VK::Unit, vec![]),
            Self::Mv { l: x0, k: x1, aa: x2, j: x3, i2: x4, i10: x5, b: x6, c: x7, h: x8, g: x9, f: x10, e: x11, d: x12, a: x13, zz: x14, z: x15 } => M::Enum("Mv".into(), VK::Struct, vec![(Some("l".into()), x0.m()), (Some("k".into()), x1.m()), (Some("aa".into()), x2.m()), (Some("j".into()), x3.m()), (Some("i2".into()), x4.m()), (Some("i10".into()), x5.m()), (Some("b".into()), x6.m()), (Some("c".into()), x7.m()), (Some("h".into()), x8.m()), (Some("g".into()), x9.m()), (Some("f".into()), x10.m()), (Some("e".into()), x11.m()), (Some("d".into()), x12.m()), (Some("a".into()), x13.m()), (Some("zz".into()), x14.m()), (Some("z".into()), x15.m())]),
            Self::YYv(x0, x1, x2, x3, x4, x5, x6, x7, x8, x9, x10, x11, x12, x13, x14, x15, x16) => M::Enum("YYv".into(), VK::Tuple, vec![(None, x0.m()), (None, x1.m()), (None, x2.m()), (None, x3.m()), (None, x4.m()), (None, x5.m()), (None, x6.m()), (None, x7.m()), (None, x8.m()), (None, x9.m()), (None, x10.m()), (None, x11.m()), (None, x12.m()), (None, x13.m()), (None, x14.m()), (None, x15.m()), (None, x16.m())]),
            Self::Yv => M::Enum("Yv".into(), VK::Unit, vec![]),
            Self::Nv { l: x0, k: x1, aa: x2, j: x3, i2: x4, i10: x5, b: x6, c: x7, h: x8, g: x9, f: x10, e: x11, d: x12, a: x13, zz: x14, z: x15, m: x16, yy: x17, y: x18 } => M::Enum("Nv".into(), VK::Struct, vec![(Some("l".into()), x0.m()), (Some("k".into()), x1.m()), (Some("aa".into()), x2.m()), (Some("j".into()), x3.m()), (Some("i2".into()), x4.m()), (Some("i10".into()), x5.m()), (Some("b".into()), x6.m()), (Some("c".into()), x7.m()), (Some("h".into()), x8.m()), (Some("g".into()), x9.m()), (Some("f".into()), x10.m()), (Some("e".into()), x11.m()), (Some("d".into()), x12.m()), (Some("a".into()), x13.m()), (Some("zz".into()), x14.m()), (Some("z".into()), x15.m()), (Some("m".into()), x16.m()), (Some("yy".into()), x17.m()), (Some("y".into()), x18.m())]),
            Self::WholeS { l: x0, k: x1, aa: x2, j: x3, i2: x4, i10: x5, b: x6, c: x7, h: x8, g: x9, f: x10, e: x11, d: x12, a: x13, zz: x14, z: x15, m: x16, yy: x17, y: x18, n: x19 } => M::Enum("WholeS".into(), VK::Struct, vec![(Some("l".into()), x0.m()), (Some("k".into()), x1.m()), (Some("aa".into()), x2.m()), (Some("j".into()), x3.m()), (Some("i2".into()), x4.m()), (Some("i10".into()), x5.m()), (Some("b".into()), x6.m()), (Some("c".into()), x7.m()), (Some("h".into()), x8.m()), (Some("g".into()), x9.m()), (Some("f".into()), x10.m()), (Some("e".into()), x11.m()), (Some("d".into()), x12.m()), (Some("a".into()), x13.m()), (Some("zz".into()), x14.m()), (Some("z".into()), x15.m()), (Some("m".into()), x16.m()), (Some("yy".into()), x17.m()), (Some("y".into()), x18.m()), (Some("n".into()), x19.m())]),
            Self::WholeT(x0, x1, x2, x3, x4, x5, x6, x7, x8, x9, x10, x11, x12, x13, x14, x15, x16, x17, x18, x19) => M::Enum("WholeT".into(), VK::Tuple, vec![(None, x0.m()), (None, x1.m()), (None, x2.m()), (None, x3.m()), (None, x4.m()), (None, x5.m()), (None, x6.m()), (None, x7.m()), (None, x8.m()), (None, x9.m()), (None, x10.m()), (None, x11.m()), (None, x12.m()), (None, x13.m()), (None, x14.m()), (None, x15.m()), (None, x16.m()), (None, x17.m()), (None, x18.m()), (None, x19.m())]),
        }
    }
    fn hidden(&self) -> Vec<u8> {
        match self {
            _ => vec![],
        }
    }
    fn vals(n: usize, d: usize) -> Vec<Self> {
        let mut per: Vec<Vec<Self>> = vec![];
        per.push(vec![Self::Lv]);
        per.push({ let l0 = <u8 as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); combos(&[l0.len()], n.max(1)).into_iter().map(|c: Vec<usize>| Self::Kv { l: l0[c[0]].dup() }).collect::<Vec<Self>>() });
        per.push({ let l0 = <u8 as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); let l1 = <String as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); combos(&[l0.len(), l1.len()], n.max(1)).into_iter().map(|c: Vec<usize>| Self::AAv(l0[c[0]].dup(), l1[c[1]].dup())).collect::<Vec<Self>>() });
        per.push(vec![Self::Jv]);
        per.push({ let l0 = <u8 as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); let l1 = <String as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); let l2 = <i32 as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); let l3 = <u8 as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); combos(&[l0.len(), l1.len(), l2.len(), l3.len()], n.max(1)).into_iter().map(|c: Vec<usize>| Self::I2v { l: l0[c[0]].dup(), k: l1[c[1]].dup(), aa: l2[c[2]].dup(), j: l3[c[3]].dup() }).collect::<Vec<Self>>() });
        per.push({ let l0 = <u8 as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); let l1 = <String as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); let l2 = <i32 as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); let l3 = <u8 as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); let l4 = <bool as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); combos(&[l0.len(), l1.len(), l2.len(), l3.len(), l4.len()], n.max(1)).into_iter().map(|c: Vec<usize>| Self::I10v(l0[c[0]].dup(), l1[c[1]].dup(), l2[c[2]].dup(), l3[c[3]].dup(), l4[c[4]].dup())).collect::<Vec<Self>>() });
        per.push(vec![Self::Bv]);
        per.push({ let l0 = <u8 as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); let l1 = <String as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); let l2 = <i32 as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); let l3 = <u8 as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); let l4 = <bool as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); let l5 = <u8 as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); let l6 = <Option<u8> as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); combos(&[l0.len(), l1.len(), l2.len(), l3.len(), l4.len(), l5.len(), l6.len()], n.max(1)).into_iter().map(|c: Vec<usize>| Self::Cv { l: l0[c[0]].dup(), k: l1[c[1]].dup(), aa: l2[c[2]].dup(), j: l3[c[3]].dup(), i2: l4[c[4]].dup(), i10: l5[c[5]].dup(), b: l6[c[6]].dup() }).collect::<Vec<Self>>() });
        per.push({ let l0 = <u8 as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); let l1 = <String as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); let l2 = <i32 as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); let l3 = <u8 as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); let l4 = <bool as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); let l5 = <u8 as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); let l6 = <Option<u8> as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); let l7 = <u16 as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); combos(&[l0.len(), l1.len(), l2.len(), l3.len(), l4.len(), l5.len(), l6.len(), l7.len()], n.max(1)).into_iter().map(|c: Vec<usize>| Self::Hv(l0[c[0]].dup(), l1[c[1]].dup(), l2[c[2]].dup(), l3[c[3]].dup(), l4[c[4]].dup(), l5[c[5]].dup(), l6[c[6]].dup(), l7[c[7]].dup())).collect::<Vec<Self>>() });
        per.push(vec![Self::Gv]);
        per.push({ let l0 = <u8 as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); let l1 = <String as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); let l2 = <i32 as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); let l3 = <u8 as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); let l4 = <bool as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); let l5 = <u8 as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); let l6 = <Option<u8> as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); let l7 = <u16 as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); let l8 = <u8 as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); let l9 = <Vec<u8> as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); combos(&[l0.len(), l1.len(), l2.len(), l3.len(), l4.len(), l5.len(), l6.len(), l7.len(), l8.len(), l9.len()], n.max(1)).into_iter().map(|c: Vec<usize>| Self::Fv { l: l0[c[0]].dup(), k: l1[c[1]].dup(), aa: l2[c[2]].dup(), j: l3[c[3]].dup(), i2: l4[c[4]].dup(), i10: l5[c[5]].dup(), b: l6[c[6]].dup(), c: l7[c[7]].dup(), h: l8[c[8]].dup(), g: l9[c[9]].dup() }).collect::<Vec<Self>>() });
        per.push({ let l0 = <u8 as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); let l1 = <String as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); let l2 = <i32 as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); let l3 = <u8 as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); let l4 = <bool as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); let l5 = <u8 as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); let l6 = <Option<u8> as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); let l7 = <u16 as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); let l8 = <u8 as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); let l9 = <Vec<u8> as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); let l10 = <u8 as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); combos(&[l0.len(), l1.len(), l2.len(), l3.len(), l4.len(), l5.len(), l6.len(), l7.len(), l8.len(), l9.len(), l10.len()], n.max(1)).into_iter().map(|c: Vec<usize>| Self::Ev(l0[c[0]].dup(), l1[c[1]].dup(), l2[c[2]].dup(), l3[c[3]].dup(), l4[c[4]].dup(), l5[c[5]].dup(), l6[c[6]].dup(), l7[c[7]].dup(), l8[c[8]].dup(), l9[c[9]].dup(), l10[c[10]].dup())).collect::<Vec<Self>>() });
        per.push(vec![Self::Dv]);
        per.push({ let l0 = <u8 as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); let l1 = <String as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); let l2 = <i32 as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); let l3 = <u8 as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); let l4 = <bool as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); let l5 = <u8 as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); let l6 = <Option<u8> as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); let l7 = <u16 as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); let l8 = <u8 as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); let l9 = <Vec<u8> as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); let l10 = <u8 as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); let l11 = <u8 as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); let l12 = <String as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); combos(&[l0.len(), l1.len(), l2.len(), l3.len(), l4.len(), l5.len(), l6.len(), l7.len(), l8.len(), l9.len(), l10.len(), l11.len(), l12.len()], n.max(1)).into_iter().map(|c: Vec<usize>| Self::Av { l: l0[c[0]].dup(), k: l1[c[1]].dup(), aa: l2[c[2]].dup(), j: l3[c[3]].dup(), i2: l4[c[4]].dup(), i10: l5[c[5]].dup(), b: l6[c[6]].dup(), c: l7[c[7]].dup(), h: l8[c[8]].dup(), g: l9[c[9]].dup(), f: l10[c[10]].dup(), e: l11[c[11]].dup(), d: l12[c[12]].dup() }).collect::<Vec<Self>>() });
        per.push({ let l0 = <u8 as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); let l1 = <String as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); let l2 = <i32 as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); let l3 = <u8 as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); let l4 = <bool as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); let l5 = <u8 as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); let l6 = <Option<u8> as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); let l7 = <u16 as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); let l8 = <u8 as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); let l9 = <Vec<u8> as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); let l10 = <u8 as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); let l11 = <u8 as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); let l12 = <String as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); let l13 = <i32 as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); combos(&[l0.len(), l1.len(), l2.len(), l3.len(), l4.len(), l5.len(), l6.len(), l7.len(), l8.len(), l9.len(), l10.len(), l11.len(), l12.len(), l13.len()], n.max(1)).into_iter().map(|c: Vec<usize>| Self::ZZv(l0[c[0]].dup(), l1[c[1]].dup(), l2[c[2]].dup(), l3[c[3]].dup(), l4[c[4]].dup(), l5[c[5]].dup(), l6[c[6]].dup(), l7[c[7]].dup(), l8[c[8]].dup(), l9[c[9]].dup(), l10[c[10]].dup(), l11[c[11]].dup(), l12[c[12]].dup(), l13[c[13]].dup())).collect::<Vec<Self>>() });
        per.push(vec![Self::Zv]);
        per.push({ let l0 = <u8 as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); let l1 = <String as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); let l2 = <i32 as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); let l3 = <u8 as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); let l4 = <bool as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); let l5 = <u8 as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); let l6 = <Option<u8> as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); let l7 = <u16 as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); let l8 = <u8 as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); let l9 = <Vec<u8> as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); let l10 = <u8 as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); let l11 = <u8 as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); let l12 = <String as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); let l13 = <i32 as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); let l14 = <u8 as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); let l15 = <bool as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); combos(&[l0.len(), l1.len(), l2.len(), l3.len(), l4.len(), l5.len(), l6.len(), l7.len(), l8.len(), l9.len(), l10.len(), l11.len(), l12.len(), l13.len(), l14.len(), l15.len()], n.max(1)).into_iter().map(|c: Vec<usize>| Self::Mv { l: l0[c[0]].dup(), k: l1[c[1]].dup(), aa: l2[c[2]].dup(), j: l3[c[3]].dup(), i2: l4[c[4]].dup(), i10: l5[c[5]].dup(), b: l6[c[6]].dup(), c: l7[c[7]].dup(), h: l8[c[8]].dup(), g: l9[c[9]].dup(), f: l10[c[10]].dup(), e: l11[c[11]].dup(), d: l12[c[12]].dup(), a: l13[c[13]].dup(), zz: l14[c[14]].dup(), z: l15[c[15]].dup() }).collect::<Vec<Self>>() });
        per.push({ let l0 = <u8 as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); let l1 = <String as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); let l2 = <i32 as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); let l3 = <u8 as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); let l4 = <bool as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); let l5 = <u8 as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); let l6 = <Option<u8> as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); let l7 = <u16 as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); let l8 = <u8 as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); let l9 = <Vec<u8> as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); let l10 = <u8 as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); let l11 = <u8 as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); let l12 = <String as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); let l13 = <i32 as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); let l14 = <u8 as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); let l15 = <bool as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); let l16 = <u8 as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); combos(&[l0.len(), l1.len(), l2.len(), l3.len(), l4.len(), l5.len(), l6.len(), l7.len(), l8.len(), l9.len(), l10.len(), l11.len(), l12.len(), l13.len(), l14.len(), l15.len(), l16.len()], n.max(1)).into_iter().map(|c: Vec<usize>| Self::YYv(l0[c[0]].dup(), l1[c[1]].dup(), l2[c[2]].dup(), l3[c[3]].dup(), l4[c[4]].dup(), l5[c[5]].dup(), l6[c[6]].dup(), l7[c[7]].dup(), l8[c[8]].dup(), l9[c[9]].dup(), l10[c[10]].dup(), l11[c[11]].dup(), l12[c[12]].dup(), l13[c[13]].dup(), l14[c[14]].dup(), l15[c[15]].dup(), l16[c[16]].dup())).collect::<Vec<Self>>() });
        per.push(vec![Self::Yv]);
        per.push({ let l0 = <u8 as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); let l1 = <String as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); let l2 = <i32 as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); let l3 = <u8 as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); let l4 = <bool as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); let l5 = <u8 as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); let l6 = <Option<u8> as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); let l7 = <u16 as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); let l8 = <u8 as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); let l9 = <Vec<u8> as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); let l10 = <u8 as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); let l11 = <u8 as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); let l12 = <String as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); let l13 = <i32 as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); let l14 = <u8 as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); let l15 = <bool as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); let l16 = <u8 as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); let l17 = <Option<u8> as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); let l18 = <u16 as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); combos(&[l0.len(), l1.len(), l2.len(), l3.len(), l4.len(), l5.len(), l6.len(), l7.len(), l8.len(), l9.len(), l10.len(), l11.len(), l12.len(), l13.len(), l14.len(), l15.len(), l16.len(), l17.len(), l18.len()], n.max(1)).into_iter().map(|c: Vec<usize>| Self::Nv { l: l0[c[0]].dup(), k: l1[c[1]].dup(), aa: l2[c[2]].dup(), j: l3[c[3]].dup(), i2: l4[c[4]].dup(), i10: l5[c[5]].dup(), b: l6[c[6]].dup(), c: l7[c[7]].dup(), h: l8[c[8]].dup(), g: l9[c[9]].dup(), f: l10[c[10]].dup(), e: l11[c[11]].dup(), d: l12[c[12]].dup(), a: l13[c[13]].dup(), zz: l14[c[14]].dup(), z: l15[c[15]].dup(), m: l16[c[16]].dup(), yy: l17[c[17]].dup(), y: l18[c[18]].dup() }).collect::<Vec<Self>>() });
        per.push({ let l0 = <u8 as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); let l1 = <String as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); let l2 = <i32 as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); let l3 = <u8 as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); let l4 = <bool as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); let l5 = <u8 as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); let l6 = <Option<u8> as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); let l7 = <u16 as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); let l8 = <u8 as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); let l9 = <Vec<u8> as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); let l10 = <u8 as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); let l11 = <u8 as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); let l12 = <String as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); let l13 = <i32 as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); let l14 = <u8 as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); let l15 = <bool as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); let l16 = <u8 as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); let l17 = <Option<u8> as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); let l18 = <u16 as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); let l19 = <u8 as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); combos(&[l0.len(), l1.len(), l2.len(), l3.len(), l4.len(), l5.len(), l6.len(), l7.len(), l8.len(), l9.len(), l10.len(), l11.len(), l12.len(), l13.len(), l14.len(), l15.len(), l16.len(), l17.len(), l18.len(), l19.len()], n.max(1)).into_iter().map(|c: Vec<usize>| Self::WholeS { l: l0[c[0]].dup(), k: l1[c[1]].dup(), aa: l2[c[2]].dup(), j: l3[c[3]].dup(), i2: l4[c[4]].dup(), i10: l5[c[5]].dup(), b: l6[c[6]].dup(), c: l7[c[7]].dup(), h: l8[c[8]].dup(), g: l9[c[9]].dup(), f: l10[c[10]].dup(), e: l11[c[11]].dup(), d: l12[c[12]].dup(), a: l13[c[13]].dup(), zz: l14[c[14]].dup(), z: l15[c[15]].dup(), m: l16[c[16]].dup(), yy: l17[c[17]].dup(), y: l18[c[18]].dup(), n: l19[c[19]].dup() }).collect::<Vec<Self>>() });
        per.push({ let l0 = <u8 as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); let l1 = <String as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); let l2 = <i32 as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); let l3 = <u8 as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); let l4 = <bool as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); let l5 = <u8 as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); let l6 = <Option<u8> as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); let l7 = <u16 as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); let l8 = <u8 as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); let l9 = <Vec<u8> as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); let l10 = <u8 as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); let l11 = <u8 as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); let l12 = <String as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); let l13 = <i32 as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); let l14 = <u8 as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); let l15 = <bool as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); let l16 = <u8 as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); let l17 = <Option<u8> as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); let l18 = <u16 as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); let l19 = <u8 as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); combos(&[l0.len(), l1.len(), l2.len(), l3.len(), l4.len(), l5.len(), l6.len(), l7.len(), l8.len(), l9.len(), l10.len(), l11.len(), l12.len(), l13.len(), l14.len(), l15.len(), l16.len(), l17.len(), l18.len(), l19.len()], n.max(1)).into_iter().map(|c: Vec<usize>| Self::WholeT(l0[c[0]].dup(), l1[c[1]].dup(), l2[c[2]].dup(), l3[c[3]].dup(), l4[c[4]].dup(), l5[c[5]].dup(), l6[c[6]].dup(), l7[c[7]].dup(), l8[c[8]].dup(), l9[c[9]].dup(), l10[c[10]].dup(), l11[c[11]].dup(), l12[c[12]].dup(), l13[c[13]].dup(), l14[c[14]].dup(), l15[c[15]].dup(), l16[c[16]].dup(), l17[c[17]].dup(), l18[c[18]].dup(), l19[c[19]].dup())).collect::<Vec<Self>>() });
        interleave(per, n)
    }
    fn into_v(self) -> Option<Value> { Some(self.into()) }
    fn dup(&self) -> Self {
        match self {
            Self::Lv => Self::Lv,
            Self::Kv { l: x0 } => Self::Kv { l: x0.dup() },
            Self::AAv(x0, x1) => Self::AAv(x0.dup(), x1.dup()),
            Self::Jv => Self::Jv,
            Self::I2v { l: x0, k: x1, aa: x2, j: x3 } => Self::I2v { l: x0.dup(), k: x1.dup(), aa: x2.dup(), j: x3.dup() },
            Self::I10v(x0, x1, x2, x3, x4) => Self::I10v(x0.dup(), x1.dup(), x2.dup(), x3.dup(), x4.dup()),
            Self::Bv => Self::Bv,
            Self::Cv { l: x0, k: x1, aa: x2, j: x3, i2: x4, i10: x5, b: x6 } => Self::Cv { l: x0.dup(), k: x1.dup(), aa: x2.dup(), j: x3.dup(), i2: x4.dup(), i10: x5.dup(), b: x6.dup() },
            Self::Hv(x0, x1, x2, x3, x4, x5, x6, x7) => Self::Hv(x0.dup(), x1.dup(), x2.dup(), x3.dup(), x4.dup(), x5.dup(), x6.dup(), x7.dup()),
            Self::Gv => Self::Gv,
            Self::Fv { l: x0, k: x1, aa: x2, j: x3, i2: x4, i10: x5, b: x6, c: x7, h: x8, g: x9 } => Self::Fv { l: x0.dup(), k: x1.dup(), aa: x2.dup(), j: x3.dup(), i2: x4.dup(), i10: x5.dup(), b: x6.dup(), c: x7.dup(), h: x8.dup(), g: x9.dup() },
            Self::Ev(x0, x1, x2, x3, x4, x5, x6, x7, x8, x9, x10) => Self::Ev(x0.dup(), x1.dup(), x2.dup(), x3.dup(), x4.dup(), x5.dup(), x6.dup(), x7.dup(), x8.dup(), x9.dup(), x10.dup()),
            Self::Dv => Self::Dv,
            Self::Av { l: x0, k: x1, aa: x2, j: x3, i2: x4, i10: x5, b: x6, c: x7, h: x8, g: x9, f: x10, e: x11, d: x12 } => Self::Av { l: x0.dup(), k: x1.dup(), aa: x2.dup(), j: x3.dup(), i2: x4.dup(), i10: x5.dup(), b: x6.dup(), c: x7.dup(), h: x8.dup(), g: x9.dup(), f: x10.dup(), e: x11.dup(), d: x12.dup() },
            Self::ZZv(x0, x1, x2, x3, x4, x5, x6, x7, x8, x9, x10, x11, x12, x13) => Self::ZZv(x0.dup(), x1.dup(), x2.dup(), x3.dup(), x4.dup(), x5.dup(), x6.dup(), x7.dup(), x8.dup(), x9.dup(), x10.dup(), x11.dup(), x12.dup(), x13.dup()),
            Self::Zv => Self::Zv,
            Self::Mv { l: x0, k: x1, aa: x2, j: x3, i2: x4, i10: x5, b: x6, c: x7, h: x8, g: x9, f: x10, e: x11, d: x12, a: x13, zz: x14, z: x15 } => Self::Mv { l: x0.dup(), k: x1.dup(), aa: x2.dup(), j: x3.dup(), i2: x4.dup(), i10: x5.dup(), b: x6.dup(), c: x7.dup(), h: x8.dup(), g: x9.dup(), f: x10.dup(), e: x11.dup(), d: x12.dup(), a: x13.dup(), zz: x14.dup(), z: x15.dup() },
            Self::YYv(x0, x1, x2, x3, x4, x5, x6, x7, x8, x9, x10, x11, x12, x13, x14, x15, x16) => Self::YYv(x0.dup(), x1.dup(), x2.dup(), x3.dup(), x4.dup(), x5.dup(), x6.dup(), x7.dup(), x8.dup(), x9.dup(), x10.dup(), x11.dup(), x12.dup(), x13.dup(), x14.dup(), x15.dup(), x16.dup()),
            Self::Yv => Self::Yv,
            Self::Nv { l: x0, k: x1, aa: x2, j: x3, i2: x4, i10: x5, b: x6, c: x7, h: x8, g: x9, f: x10, e: x11, d: x12, a: x13, zz: x14, z: x15, m: x16, yy: x17, y: x18 } => Self::Nv { l: x0.dup(), k: x1.dup(), aa: x2.dup(), j: x3.dup(), i2: x4.dup(), i10: x5.dup(), b: x6.dup(), c: x7.dup(), h: x8.dup(), g: x9.dup(), f: x10.dup(), e: x11.dup(), d: x12.dup(), a: x13.dup(), zz: x14.dup(), z: x15.dup(), m: x16.dup(), yy: x17.dup(), y: x18.dup() },
            Self::WholeS { l: x0, k: x1, aa: x2, j: x3, i2: x4, i10: x5, b: x6, c: x7, h: x8, g: x9, f: x10, e: x11, d: x12, a: x13, zz: x14, z: x15, m: x16, yy: x17, y: x18, n: x19 } => Self::WholeS { l: x0.dup(), k: x1.dup(), aa: x2.dup(), j: x3.dup(), i2: x4.dup(), i10: x5.dup(), b: x6.dup(), c: x7.dup(), h: x8.dup(), g: x9.dup(), f: x10.dup(), e: x11.dup(), d: x12.dup(), a: x13.dup(), zz: x14.dup(), z: x15.dup(), m: x16.dup(), yy: x17.dup(), y: x18.dup(), n: x19.dup() },
            Self::WholeT(x0, x1, x2, x3, x4, x5, x6, x7, x8, x9, x10, x11, x12, x13, x14, x15, x16, x17, x18, x19) => Self::WholeT(x0.dup(), x1.dup(), x2.dup(), x3.dup(), x4.dup(), x5.dup(), x6.dup(), x7.dup(), x8.dup(), x9.dup(), x10.dup(), x11.dup(), x12.dup(), x13.dup(), x14.dup(), x15.dup(), x16.dup(), x17.dup(), x18.dup(), x19.dup()),
        }
    }
    fn dfmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        std::fmt::Debug::fmt(self, f)
    }
}

#[allow(dead_code)]
#[derive(Reflect, Clone, Debug)]
pub struct Wide12 {
    #[reflect(skip)] pub l: Hid,
    pub k: String,
    pub aa: i32,
    pub j: u8,
    pub i2: bool,
    #[reflect(skip)] pub i10: Hid,
    pub b: Option<u8>,
    pub c: u16,
    pub h: u8,
    pub g: Vec<u8>,
    #[reflect(skip)] pub f: Hid,
    #[reflect(skip)] pub e: Hid,
}
#[allow(unused_variables, unused_mut, clippy::all)]
impl Modeled for Wide12 {
    fn t() -> T {
        T::Struct { name: std::any::type_name::<Self>(), fields: vec![FieldT { name: Some("k"), ty: <String as Modeled>::t, with: None, meta: vec![], docs: vec![] }, FieldT { name: Some("aa"), ty: <i32 as Modeled>::t, with: None, meta: vec![], docs: vec![] }, FieldT { name: Some("j"), ty: <u8 as Modeled>::t, with: None, meta: vec![], docs: vec![] }, FieldT { name: Some("i2"), ty: <bool as Modeled>::t, with: None, meta: vec![], docs: vec![] }, FieldT { name: Some("b"), ty: <Option<u8> as Modeled>::t, with: None, meta: vec![], docs: vec![] }, FieldT { name: Some("c"), ty: <u16 as Modeled>::t, with: None, meta: vec![], docs: vec![] }, FieldT { name: Some("h"), ty: <u8 as Modeled>::t, with: None, meta: vec![], docs: vec![] }, FieldT { name: Some("g"), ty: <Vec<u8> as Modeled>::t, with: None, meta: vec![], docs: vec![] }], meta: vec![], docs: vec![] }
    }
    fn m(&self) -> M {
        M::Struct(vec![("k".to_owned(), self.k.m()), ("aa".to_owned(), self.aa.m()), ("j".to_owned(), self.j.m()), ("i2".to_owned(), self.i2.m()), ("b".to_owned(), self.b.m()), ("c".to_owned(), self.c.m()), ("h".to_owned(), self.h.m()), ("g".to_owned(), self.g.m())])
    }
    fn hidden(&self) -> Vec<u8> {
        vec![self.l.0, self.i10.0, self.f.0, self.e.0]
    }
    fn vals(n: usize, d: usize) -> Vec<Self> {
        let l1 = <String as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); let l2 = <i32 as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); let l3 = <u8 as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); let l4 = <bool as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); let l6 = <Option<u8> as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); let l7 = <u16 as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); let l8 = <u8 as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); let l9 = <Vec<u8> as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); combos(&[l1.len(), l2.len(), l3.len(), l4.len(), l6.len(), l7.len(), l8.len(), l9.len()], n.max(1)).into_iter().map(|c: Vec<usize>| Self { l: Hid(1), k: l1[c[0]].dup(), aa: l2[c[1]].dup(), j: l3[c[2]].dup(), i2: l4[c[3]].dup(), i10: Hid(6), b: l6[c[4]].dup(), c: l7[c[5]].dup(), h: l8[c[6]].dup(), g: l9[c[7]].dup(), f: Hid(11), e: Hid(12) }).collect::<Vec<Self>>()
    }
    fn into_v(self) -> Option<Value> { Some(self.into()) }
    fn dup(&self) -> Self {
        Self { l: Hid(self.l.0), k: self.k.dup(), aa: self.aa.dup(), j: self.j.dup(), i2: self.i2.dup(), i10: Hid(self.i10.0), b: self.b.dup(), c: self.c.dup(), h: self.h.dup(), g: self.g.dup(), f: Hid(self.f.0), e: Hid(self.e.0) }
    }
    fn dfmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        std::fmt::Debug::fmt(self, f)
    }
}

#[allow(dead_code)]
#[derive(Reflect, Clone, Debug)]
pub struct WideT12(
    #[reflect(skip)] pub Hid,
    pub String,
    pub i32,
    pub u8,
    pub bool,
    #[reflect(skip)] pub Hid,
    pub Option<u8>,
    pub u16,
    pub u8,
    pub Vec<u8>,
    #[reflect(skip)] pub Hid,
    #[reflect(skip)] pub Hid,
);
#[allow(unused_variables, unused_mut, clippy::all)]
impl Modeled for WideT12 {
    fn t() -> T {
        T::TupleStruct { name: std::any::type_name::<Self>(), fields: vec![FieldT { name: None, ty: <String as Modeled>::t, with: None, meta: vec![], docs: vec![] }, FieldT { name: None, ty: <i32 as Modeled>::t, with: None, meta: vec![], docs: vec![] }, FieldT { name: None, ty: <u8 as Modeled>::t, with: None, meta: vec![], docs: vec![] }, FieldT { name: None, ty: <bool as Modeled>::t, with: None, meta: vec![], docs: vec![] }, FieldT { name: None, ty: <Option<u8> as Modeled>::t, with: None, meta: vec![], docs: vec![] }, FieldT { name: None, ty: <u16 as Modeled>::t, with: None, meta: vec![], docs: vec![] }, FieldT { name: None, ty: <u8 as Modeled>::t, with: None, meta: vec![], docs: vec![] }, FieldT { name: None, ty: <Vec<u8> as Modeled>::t, with: None, meta: vec![], docs: vec![] }], meta: vec![], docs: vec![] }
    }
    fn m(&self) -> M {
        M::TupleStruct(vec![self.1.m(), self.2.m(), self.3.m(), self.4.m(), self.6.m(), self.7.m(), self.8.m(), self.9.m()])
    }
    fn hidden(&self) -> Vec<u8> {
        vec![self.0.0, self.5.0, self.10.0, self.11.0]
    }
    fn vals(n: usize, d: usize) -> Vec<Self> {
        let l1 = <String as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); let l2 = <i32 as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); let l3 = <u8 as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); let l4 = <bool as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); let l6 = <Option<u8> as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); let l7 = <u16 as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); let l8 = <u8 as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); let l9 = <Vec<u8> as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); combos(&[l1.len(), l2.len(), l3.len(), l4.len(), l6.len(), l7.len(), l8.len(), l9.len()], n.max(1)).into_iter().map(|c: Vec<usize>| Self(Hid(1), l1[c[0]].dup(), l2[c[1]].dup(), l3[c[2]].dup(), l4[c[3]].dup(), Hid(6), l6[c[4]].dup(), l7[c[5]].dup(), l8[c[6]].dup(), l9[c[7]].dup(), Hid(11), Hid(12))).collect::<Vec<Self>>()
    }
    fn into_v(self) -> Option<Value> { Some(self.into()) }
    fn dup(&self) -> Self {
        Self(Hid(self.0.0), self.1.dup(), self.2.dup(), self.3.dup(), self.4.dup(), Hid(self.5.0), self.6.dup(), self.7.dup(), self.8.dup(), self.9.dup(), Hid(self.10.0), Hid(self.11.0))
    }
    fn dfmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        std::fmt::Debug::fmt(self, f)
    }
}

#[allow(dead_code)]
#[derive(Reflect, Clone, Debug)]
pub enum WideE12 {
    Lv,
    Kv {
        #[reflect(skip)] l: Hid,
    },
    AAv(
        #[reflect(skip)] Hid,
        String,
    ),
    Jv,
    I2v {
        #[reflect(skip)] l: Hid,
        k: String,
        aa: i32,
        j: u8,
    },
    I10v(
        #[reflect(skip)] Hid,
        String,
        i32,
        u8,
        bool,
    ),
    Bv,
    Cv {
        #[reflect(skip)] l: Hid,
        k: String,
        aa: i32,
        j: u8,
        i2: bool,
        #[reflect(skip)] i10: Hid,
        b: Option<u8>,
    },
    Hv(
        #[reflect(skip)] Hid,
        String,
        i32,
        u8,
        bool,
        #[reflect(skip)] Hid,
        Option<u8>,
        u16,
    ),
    Gv,
    Fv {
        #[reflect(skip)] l: Hid,
        k: String,
        aa: i32,
        j: u8,
        i2: bool,
        #[reflect(skip)] i10: Hid,
        b: Option<u8>,
        c: u16,
        h: u8,
        g: Vec<u8>,
    },
    Ev(
        #[reflect(skip)] Hid,
        String,
        i32,
        u8,
        bool,
        #[reflect(skip)] Hid,
        Option<u8>,
        u16,
        u8,
        Vec<u8>,
        #[reflect(skip)] Hid,
    ),
    WholeS {
        #[reflect(skip)] l: Hid,
        k: String,
        aa: i32,
        j: u8,
        i2: bool,
        #[reflect(skip)] i10: Hid,
        b: Option<u8>,
        c: u16,
        h: u8,
        g: Vec<u8>,
        #[reflect(skip)] f: Hid,
        #[reflect(skip)] e: Hid,
    },
    WholeT(
        #[reflect(skip)] Hid,
        String,
        i32,
        u8,
        bool,
        #[reflect(skip)] Hid,
        Option<u8>,
        u16,
        u8,
        Vec<u8>,
        #[reflect(skip)] Hid,
        #[reflect(skip)] Hid,
    ),
}
#[allow(unused_variables, unused_mut, clippy::all)]
impl Modeled for WideE12 {
    fn t() -> T {
        T::Enum { name: std::any::type_name::<Self>(), variants: vec![VariantT { name: "Lv", kind: VK::Unit, fields: vec![], meta: vec![], docs: vec![] }, VariantT { name: "Kv", kind: VK::Struct, fields: vec![], meta: vec![], docs: vec![] }, VariantT { name: "AAv", kind: VK::Tuple, fields: vec![FieldT { name: None, ty: <String as Modeled>::t, with: None, meta: vec![], docs: vec![] }], meta: vec![], docs: vec![] }, VariantT { name: "Jv", kind: VK::Unit, fields: vec![], meta: vec![], docs: vec![] }, VariantT { name: "I2v", kind: VK::Struct, fields: vec![FieldT { name: Some("k"), ty: <String as Modeled>::t, with: None, meta: vec![], docs: vec![] }, FieldT { name: Some("aa"), ty: <i32 as Modeled>::t, with: None, meta: vec![], docs: vec![] }, FieldT { name: Some("j"), ty: <u8 as Modeled>::t, with: None, meta: vec![], docs: vec![] }], meta: vec![], docs: vec![] }, VariantT { name: "I10v", kind: VK::Tuple, fields: vec![FieldT { name: None, ty: <String as Modeled>::t, with: None, meta: vec![], docs: vec![] }, FieldT { name: None, ty: <i32 as Modeled>::t, with: None, meta: vec![], docs: vec![] }, FieldT { name: None, ty: <u8 as Modeled>::t, with: None, meta: vec![], docs: vec![] }, FieldT { name: None, ty: <bool as Modeled>::t, with: None, meta: vec![], docs: vec![] }], meta: vec![], docs: vec![] }, VariantT { name: "Bv", kind: VK::Unit, fields: vec![], meta: vec![], docs: vec![] }, VariantT { name: "Cv", kind: VK::Struct, fields: vec![FieldT { name: Some("k"), ty: <String as Modeled>::t, with: None, meta: vec![], docs: vec![] }, FieldT { name: Some("aa"), ty: <i32 as Modeled>::t, with: None, meta: vec![], docs: vec![] }, FieldT { name: Some("j"), ty: <u8 as Modeled>::t, with: None, meta: vec![], docs: vec![] }, FieldT { name: Some("i2"), ty: <bool as Modeled>::t, with: None, meta: vec![], docs: vec![] }, FieldT { name: Some("b"), ty: <Option<u8> as Modeled>::t, with: None, meta: vec![], docs: vec![] }], meta: vec![], docs: vec![] }, VariantT { name: "Hv", kind: VK::Tuple, fields: vec![FieldT { name: None, ty: <String as Modeled>::t, with: None, meta: vec![], docs: vec![] }, FieldT { name: None, ty: <i32 as Modeled>::t, with: None, meta: vec![], docs: vec![] }, FieldT { name: None, ty: <u8 as Modeled>::t, with: None, meta: vec![], docs: vec![] }, FieldT { name: None, ty: <bool as Modeled>::t, with: None, meta: vec![], docs: vec![] }, FieldT { name: None, ty: <Option<u8> as Modeled>::t, with: None, meta: vec![], docs: vec![] }, FieldT { name: None, ty: <u16 as Modeled>::t, with: None, meta: vec![], docs: vec![] }], meta: vec![], docs: vec![] }, VariantT { name: "Gv", kind: VK::Unit, fields: vec![], meta: vec![], docs: vec![] }, VariantT { name: "Fv", kind: VK::Struct, fields: vec![FieldT { name: Some("k"), ty: <String as Modeled>::t, with: None, meta: vec![], docs: vec![] }, FieldT { name: Some("aa"), ty: <i32 as Modeled>::t, with: None, meta: vec![], docs: vec![] }, FieldT { name: Some("j"), ty: <u8 as Modeled>::t, with: None, meta: vec![], docs: vec![] }, FieldT { name: Some("i2"), ty: <bool as Modeled>::t, with: None, meta: vec![], docs: vec![] }, FieldT { name: Some("b"), ty: <Option<u8> as Modeled>::t, with: None, meta: vec![], docs: vec![] }, FieldT { name: Some("c"), ty: <u16 as Modeled>::t, with: None, meta: vec![], docs: vec![] }, FieldT { name: Some("h"), ty: <u8 as Modeled>::t, with: None, meta: vec![], docs: vec![] }, FieldT { name: Some("g"), ty: <Vec<u8> as Modeled>::t, with: None, meta: vec![], docs: vec![] }], meta: vec![], docs: vec![] }, VariantT { name: "Ev", kind: VK::Tuple, fields: vec![FieldT { name: None, ty: <String as Modeled>::t, with: None, meta: vec![], docs: vec![] }, FieldT { name: None, ty: <i32 as Modeled>::t, with: None, meta: vec![], docs: vec![] }, FieldT { name: None, ty: <u8 as Modeled>::t, with: None, meta: vec![], docs: vec![] }, FieldT { name: None, ty: <bool as Modeled>::t, with: None, meta: vec![], docs: vec![] }, FieldT { name: None, ty: <Option<u8> as Modeled>::t, with: None, meta: vec![], docs: vec![] }, FieldT { name: None, ty: <u16 as Modeled>::t, with: None, meta: vec![], docs: vec![] }, FieldT { name: None, ty: <u8 as Modeled>::t, with: None, meta: vec![], docs: vec![] }, FieldT { name: None, ty: <Vec<u8> as Modeled>::t, with: None, meta: vec![], docs: vec![] }], meta: vec![], docs: vec![] }, VariantT { name: "WholeS", kind: VK::Struct, fields: vec![FieldT { name: Some("k"), ty: <String as Modeled>::t, with: None, meta: vec![], docs: vec![] }, FieldT { name: Some("aa"), ty: <i32 as Modeled>::t, with: None, meta: vec![], docs: vec![] }, FieldT { name: Some("j"), ty: <u8 as Modeled>::t, with: None, meta: vec![], docs: vec![] }, FieldT { name: Some("i2"), ty: <bool as Modeled>::t, with: None, meta: vec![], docs: vec![] }, FieldT { name: Some("b"), ty: <Option<u8> as Modeled>::t, with: None, meta: vec![], docs: vec![] }, FieldT { name: Some("c"), ty: <u16 as Modeled>::t, with: None, meta: vec![], docs: vec![] }, FieldT { name: Some("h"), ty: <u8 as Modeled>::t, with: None, meta: vec![], docs: vec![] }, FieldT { name: Some("g"), ty: <Vec<u8> as Modeled>::t, with: None, meta: vec![], docs: vec![] }], meta: vec![], docs: vec![] }, VariantT { name: "WholeT", kind: VK::Tuple, fields: vec![FieldT { name: None, ty: <String as Modeled>::t, with: None, meta: vec![], docs: vec![] }, FieldT { name: None, ty: <i32 as Modeled>::t, with: None, meta: vec![], docs: vec![] }, FieldT { name: None, ty: <u8 as Modeled>::t, with: None, meta: vec![], docs: vec![] }, FieldT { name: None, ty: <bool as Modeled>::t, with: None, meta: vec![], docs: vec![] }, FieldT { name: None, ty: <Option<u8> as Modeled>::t, with: None, meta: vec![], docs: vec![] }, FieldT { name: None, ty: <u16 as Modeled>::t, with: None, meta: vec![], docs: vec![] }, FieldT { name: None, ty: <u8 as Modeled>::t, with: None, meta: vec![], docs: vec![] }, FieldT { name: None, ty: <Vec<u8> as Modeled>::t, with: None, meta: vec![], docs: vec![] }], meta: vec![], docs: vec![] }], skipped: vec![], meta: vec![], docs: vec![] }
    }
    fn m(&self) -> M {
        match self {
            Self::Lv => M::Enum("Lv".into(), VK::Unit, vec![]),
            Self::Kv { l: x0 } => M::Enum("Kv".into(), VK::Struct, vec![]),
            Self::AAv(x0, x1) => M::Enum("AAv".into(), VK::Tuple, vec![(None, x1.m())]),
            Self::Jv => M::Enum("Jv".into(), VK::Unit, vec![]),
            Self::I2v { l: x0, k: x1, aa: x2, j: x3 } => M::Enum("I2v".into(), VK::Struct, vec![(Some("k".into()), x1.m()), (Some("aa".into()), x2.m()), (Some("j".into()), x3.m())]),
            Self::I10v(x0, x1, x2, x3, x4) => M::Enum("I10v".into(), VK::Tuple, vec![(None, x1.m()), (None, x2.m()), (None, x3.m()), (None, x4.m())]),
            Self::Bv => M::Enum("Bv".into(), VK::Unit, vec![]),
            Self::Cv { l: x0, k: x1, aa: x2, j: x3, i2: x4, i10: x5, b: x6 } => M::Enum("Cv".into(), VK::Struct, vec![(Some("k".into()), x1.m()), (Some("aa".into()), x2.m()), (Some("j".into()), x3.m()), (Some("i2".into()), x4.m()), (Some("b".into()), x6.m())]),
            Self::Hv(x0, x1, x2, x3, x4, x5, x6, x7) => M::Enum("Hv".into(), VK::Tuple, vec![(None, x1.m()), (None, x2.m()), (None, x3.m()), (None, x4.m()), (None, x6.m()), (None, x7.m())]),
            Self::Gv => M::Enum("Gv".into(), VK::Unit, vec![]),
            Self::Fv { l: x0, k: x1, aa: x2, j: x3, i2: x4, i10: x5, b: x6, c: x7, h: x8, g: x9 } => M::Enum("Fv".into(), VK::Struct, vec![(Some("k".into()), x1.m()), (Some("aa".into()), x2.m()), (Some("j".into()), x3.m()), (Some("i2".into()), x4.m()), (Some("b".into()), x6.m()), (Some("c".into()), x7.m()), (Some("h".into()), x8.m()), (Some("g".into()), x9.m())]),
            Self::Ev(x0, x1, x2, x3, x4, x5, x6, x7, x8, x9, x10) => M::Enum("Ev".into(), VK::Tuple, vec![(None, x1.m()), (None, x2.m()), (None, x3.m()), (None, x4.m()), (None, x6.m()), (None, x7.m()), (None, x8.m()), (None, x9.m())]),
            Self::WholeS { l: x0, k: x1, aa: x2, j: x3, i2: x4, i10: x5, b: x6, c: x7, h: x8, g: x9, f: x10, e: x11 } => M::Enum("WholeS".into(), VK::Struct, vec![(Some("k".into()), x1.m()), (Some("aa".into()), x2.m()), (Some("j".into()), x3.m()), (Some("i2".into()), x4.m()), (Some("b".into()), x6.m()), (Some("c".into()), x7.m()), (Some("h".into()), x8.m()), (Some("g".into()), x9.m())]),
            Self::WholeT(x0, x1, x2, x3, x4, x5, x6, x7, x8, x9, x10, x11) => M::Enum("WholeT".into(), VK::Tuple, vec![(None, x1.m()), (None, x2.m()), (None, x3.m()), (None, x4.m()), (None, x6.m()), (None, x7.m()), (None, x8.m()), (None, x9.m())]),
        }
    }
    fn hidden(&self) -> Vec<u8> {
        match self {
            Self::Kv { l: x0 } => vec![x0.0],
            Self::AAv(x0, x1) => vec![x0.0],
            Self::I2v { l: x0, k: x1, aa: x2, j: x3 } => vec![x0.0],
            Self::I10v(x0, x1, x2, x3, x4) => vec![x0.0],
            Self::Cv { l: x0, k: x1, aa: x2, j: x3, i2: x4, i10: x5, b: x6 } => vec![x0.0, x5.0],
            Self::Hv(x0, x1, x2, x3, x4, x5, x6, x7) => vec![x0.0, x5.0],
            Self::Fv { l: x0, k: x1, aa: x2, j: x3, i2: x4, i10: x5, b: x6, c: x7, h: x8, g: x9 } => vec![x0.0, x5.0],
            Self::Ev(x0, x1, x2, x3, x4, x5, x6, x7, x8, x9, x10) => vec![x0.0, x5.0, x10.0],
            Self::WholeS { l: x0, k: x1, aa: x2, j: x3, i2: x4, i10: x5, b: x6, c: x7, h: x8, g: x9, f: x10, e: x11 } => vec![x0.0, x5.0, x10.0, x11.0],
            Self::WholeT(x0, x1, x2, x3, x4, x5, x6, x7, x8, x9, x10, x11) => vec![x0.0, x5.0, x10.0, x11.0],
            _ => vec![],
        }
    }
    fn vals(n: usize, d: usize) -> Vec<Self> {
        let mut per: Vec<Vec<Self>> = vec![];
        per.push(vec![Self::Lv]);
        per.push({  combos(&[], n.max(1)).into_iter().map(|c: Vec<usize>| Self::Kv { l: Hid(1) }).collect::<Vec<Self>>() });
        per.push({ let l1 = <String as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); combos(&[l1.len()], n.max(1)).into_iter().map(|c: Vec<usize>| Self::AAv(Hid(1), l1[c[0]].dup())).collect::<Vec<Self>>() });
        per.push(vec![Self::Jv]);
        per.push({ let l1 = <String as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); let l2 = <i32 as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); let l3 = <u8 as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); combos(&[l1.len(), l2.len(), l3.len()], n.max(1)).into_iter().map(|c: Vec<usize>| Self::I2v { l: Hid(1), k: l1[c[0]].dup(), aa: l2[c[1]].dup(), j: l3[c[2]].dup() }).collect::<Vec<Self>>() });
        per.push({ let l1 = <String as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); let l2 = <i32 as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); let l3 = <u8 as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); let l4 = <bool as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); combos(&[l1.len(), l2.len(), l3.len(), l4.len()], n.max(1)).into_iter().map(|c: Vec<usize>| Self::I10v(Hid(1), l1[c[0]].dup(), l2[c[1]].dup(), l3[c[2]].dup(), l4[c[3]].dup())).collect::<Vec<Self>>() });
        per.push(vec![Self::Bv]);
        per.push({ let l1 = <String as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); let l2 = <i32 as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); let l3 = <u8 as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); let l4 = <bool as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); let l6 = <Option<u8> as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); combos(&[l1.len(), l2.len(), l3.len(), l4.len(), l6.len()], n.max(1)).into_iter().map(|c: Vec<usize>| Self::Cv { l: Hid(1), k: l1[c[0]].dup(), aa: l2[c[1]].dup(), j: l3[c[2]].dup(), i2: l4[c[3]].dup(), i10: Hid(6), b: l6[c[4]].dup() }).collect::<Vec<Self>>() });
        per.push({ let l1 = <String as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); let l2 = <i32 as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); let l3 = <u8 as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); let l4 = <bool as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); let l6 = <Option<u8> as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); let l7 = <u16 as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); combos(&[l1.len(), l2.len(), l3.len(), l4.len(), l6.len(), l7.len()], n.max(1)).into_iter().map(|c: Vec<usize>| Self::Hv(Hid(1), l1[c[0]].dup(), l2[c[1]].dup(), l3[c[2]].dup(), l4[c[3]].dup(), Hid(6), l6[c[4]].dup(), l7[c[5]].dup())).collect::<Vec<Self>>() });
        per.push(vec![Self::Gv]);
        per.push({ let l1 = <String as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); let l2 = <i32 as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); let l3 = <u8 as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); let l4 = <bool as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); let l6 = <Option<u8> as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); let l7 = <u16 as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); let l8 = <u8 as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); let l9 = <Vec<u8> as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); combos(&[l1.len(), l2.len(), l3.len(), l4.len(), l6.len(), l7.len(), l8.len(), l9.len()], n.max(1)).into_iter().map(|c: Vec<usize>| Self::Fv { l: Hid(1), k: l1[c[0]].dup(), aa: l2[c[1]].dup(), j: l3[c[2]].dup(), i2: l4[c[3]].dup(), i10: Hid(6), b: l6[c[4]].dup(), c: l7[c[5]].dup(), h: l8[c[6]].dup(), g: l9[c[7]].dup() }).collect::<Vec<Self>>() });
        per.push({ let l1 = <String as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); let l2 = <i32 as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); let l3 = <u8 as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); let l4 = <bool as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); let l6 = <Option<u8> as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); let l7 = <u16 as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); let l8 = <u8 as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); let l9 = <Vec<u8> as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); combos(&[l1.len(), l2.len(), l3.len(), l4.len(), l6.len(), l7.len(), l8.len(), l9.len()], n.max(1)).into_iter().map(|c: Vec<usize>| Self::Ev(Hid(1), l1[c[0]].dup(), l2[c[1]].dup(), l3[c[2]].dup(), l4[c[3]].dup(), Hid(6), l6[c[4]].dup(), l7[c[5]].dup(), l8[c[6]].dup(), l9[c[7]].dup(), Hid(11))).collect::<Vec<Self>>() });
        per.push({ let l1 = <String as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); let l2 = <i32 as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); let l3 = <u8 as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); let l4 = <bool as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); let l6 = <Option<u8> as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); let l7 = <u16 as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); let l8 = <u8 as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); let l9 = <Vec<u8> as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); combos(&[l1.len(), l2.len(), l3.len(), l4.len(), l6.len(), l7.len(), l8.len(), l9.len()], n.max(1)).into_iter().map(|c: Vec<usize>| Self::WholeS { l: Hid(1), k: l1[c[0]].dup(), aa: l2[c[1]].dup(), j: l3[c[2]].dup(), i2: l4[c[3]].dup(), i10: Hid(6), b: l6[c[4]].dup(), c: l7[c[5]].dup(), h: l8[c[6]].dup(), g: l9[c[7]].dup(), f: Hid(11), e: Hid(12) }).collect::<Vec<Self>>() });
        per.push({ let l1 = <String as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); let l2 = <i32 as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); let l3 = <u8 as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); let l4 = <bool as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); let l6 = <Option<u8> as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); let l7 = <u16 as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); let l8 = <u8 as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); let l9 = <Vec<u8> as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); combos(&[l1.len(), l2.len(), l3.len(), l4.len(), l6.len(), l7.len(), l8.len(), l9.len()], n.max(1)).into_iter().map(|c: Vec<usize>| Self::WholeT(Hid(1), l1[c[0]].dup(), l2[c[1]].dup(), l3[c[2]].dup(), l4[c[3]].dup(), Hid(6), l6[c[4]].dup(), l7[c[5]].dup(), l8[c[6]].dup(), l9[c[7]].dup(), Hid(11), Hid(12))).collect::<Vec<Self>>() });
        interleave(per, n)
    }
    fn into_v(self) -> Option<Value> { Some(self.into()) }
    fn dup(&self) -> Self {
        match self {
            Self::Lv => Self::Lv,
            Self::Kv { l: x0 } => Self::Kv { l: Hid(x0.0) },
            Self::AAv(x0, x1) => Self::AAv(Hid(x0.0), x1.dup()),
            Self::Jv => Self::Jv,
            Self::I2v { l: x0, k: x1, aa: x2, j: x3 } => Self::I2v { l: Hid(x0.0), k: x1.dup(), aa: x2.dup(), j: x3.dup() },
            Self::I10v(x0, x1, x2, x3, x4) => Self::I10v(Hid(x0.0), x1.dup(), x2.dup(), x3.dup(), x4.dup()),
            Self::Bv => Self::Bv,
            Self::Cv { l: x0, k: x1, aa: x2, j: x3, i2: x4, i10: x5, b: x6 } => Self::Cv { l: Hid(x0.0), k: x1.dup(), aa: x2.dup(), j: x3.dup(), i2: x4.dup(), i10: Hid(x5.0), b: x6.dup() },
            Self::Hv(x0, x1, x2, x3, x4, x5, x6, x7) => Self::Hv(Hid(x0.0), x1.dup(), x2.dup(), x3.dup(), x4.dup(), Hid(x5.0), x6.dup(), x7.dup()),
            Self::Gv => Self::Gv,
            Self::Fv { l: x0, k: x1, aa: x2, j: x3, i2: x4, i10: x5, b: x6, c: x7, h: x8, g: x9 } => Self::Fv { l: Hid(x0.0), k: x1.dup(), aa: x2.dup(), j: x3.dup(), i2: x4.dup(), i10: Hid(x5.0), b: x6.dup(), c: x7.dup(), h: x8.dup(), g: x9.dup() },
            Self::Ev(x0, x1, x2, x3, x4, x5, x6, x7, x8, x9, x10) => Self::Ev(Hid(x0.0), x1.dup(), x2.dup(), x3.dup(), x4.dup(), Hid(x5.0), x6.dup(), x7.dup(), x8.dup(), x9.dup(), Hid(x10.0)),
            Self::WholeS { l: x0, k: x1, aa: x2, j: x3, i2: x4, i10: x5, b: x6, c: x7, h: x8, g: x9, f: x10, e: x11 } => Self::WholeS { l: Hid(x0.0), k: x1.dup(), aa: x2.dup(), j: x3.dup(), i2: x4.dup(), i10: Hid(x5.0), b: x6.dup(), c: x7.dup(), h: x8.dup(), g: x9.dup(), f: Hid(x10.0), e: Hid(x11.0) },
            Self::WholeT(x0, x1, x2, x3, x4, x5, x6, x7, x8, x9, x10, x11) => Self::WholeT(Hid(x0.0), x1.dup(), x2.dup(), x3.dup(), x4.dup(), Hid(x5.0), x6.dup(), x7.dup(), x8.dup(), x9.dup(), Hid(x10.0), Hid(x11.0)),
        }
    }
    fn dfmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        std::fmt::Debug::fmt(self, f)
    }
}

#[allow(dead_code)]
#[derive(Reflect, Clone, Debug)]
pub enum SkipV0 {
    A,
    B {
        x: i32,
        y: String,
    },
    C(
        i32,
        String,
    ),
}
#[allow(unused_variables, unused_mut, clippy::all)]
impl Modeled for SkipV0 {
    fn t() -> T {
        T::Enum { name: std::any::type_name::<Self>(), variants: vec![VariantT { name: "A", kind: VK::Unit, fields: vec![], meta: vec![], docs: vec![] }, VariantT { name: "B", kind: VK::Struct, fields: vec![FieldT { name: Some("x"), ty: <i32 as Modeled>::t, with: None, meta: vec![], docs: vec![] }, FieldT { name: Some("y"), ty: <String as Modeled>::t, with: None, meta: vec![], docs: vec![] }], meta: vec![], docs: vec![] }, VariantT { name: "C", kind: VK::Tuple, fields: vec![FieldT { name: None, ty: <i32 as Modeled>::t, with: None, meta: vec![], docs: vec![] }, FieldT { name: None, ty: <String as Modeled>::t, with: None, meta: vec![], docs: vec![] }], meta: vec![], docs: vec![] }], skipped: vec![], meta: vec![], docs: vec![] }
    }
    fn m(&self) -> M {
        match self {
            Self::A => M::Enum("A".into(), VK::Unit, vec![]),
            Self::B { x: x0, y: x1 } => M::Enum("B".into(), VK::Struct, vec![(Some("x".into()), x0.m()), (Some("y".into()), x1.m())]),
            Self::C(x0, x1) => M::Enum("C".into(), VK::Tuple, vec![(None, x0.m()), (None, x1.m())]),
        }
    }
    fn hidden(&self) -> Vec<u8> {
        match self {
            _ => vec![],
        }
    }
    fn vals(n: usize, d: usize) -> Vec<Self> {
        let mut per: Vec<Vec<Self>> = vec![];
        per.push(vec![Self::A]);
        per.push({ let l0 = <i32 as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); let l1 = <String as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); combos(&[l0.len(), l1.len()], n.max(1)).into_iter().map(|c: Vec<usize>| Self::B { x: l0[c[0]].dup(), y: l1[c[1]].dup() }).collect::<Vec<Self>>() });
        per.push({ let l0 = <i32 as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); let l1 = <String as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); combos(&[l0.len(), l1.len()], n.max(1)).into_iter().map(|c: Vec<usize>| Self::C(l0[c[0]].dup(), l1[c[1]].dup())).collect::<Vec<Self>>() });
        interleave(per, n)
    }
    fn into_v(self) -> Option<Value> { Some(self.into()) }
    fn dup(&self) -> Self {
        match self {
            Self::A => Self::A,
            Self::B { x: x0, y: x1 } => Self::B { x: x0.dup(), y: x1.dup() },
            Self::C(x0, x1) => Self::C(x0.dup(), x1.dup()),
        }
    }
    fn dfmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        std::fmt::Debug::fmt(self, f)
    }
}

#[allow(dead_code)]
#[derive(Reflect, Clone, Debug)]
pub enum SkipV1 {
    #[reflect(skip)]
    A,
    B {
        x: i32,
        y: String,
    },
    C(
        i32,
        String,
    ),
}
#[allow(unused_variables, unused_mut, clippy::all)]
impl Modeled for SkipV1 {
    fn t() -> T {
        T::Enum { name: std::any::type_name::<Self>(), variants: vec![VariantT { name: "B", kind: VK::Struct, fields: vec![FieldT { name: Some("x"), ty: <i32 as Modeled>::t, with: None, meta: vec![], docs: vec![] }, FieldT { name: Some("y"), ty: <String as Modeled>::t, with: None, meta: vec![], docs: vec![] }], meta: vec![], docs: vec![] }, VariantT { name: "C", kind: VK::Tuple, fields: vec![FieldT { name: None, ty: <i32 as Modeled>::t, with: None, meta: vec![], docs: vec![] }, FieldT { name: None, ty: <String as Modeled>::t, with: None, meta: vec![], docs: vec![] }], meta: vec![], docs: vec![] }], skipped: vec!["A"], meta: vec![], docs: vec![] }
    }
    fn m(&self) -> M {
        match self {
            Self::A => M::Enum("A".into(), VK::Unit, vec![]),
            Self::B { x: x0, y: x1 } => M::Enum("B".into(), VK::Struct, vec![(Some("x".into()), x0.m()), (Some("y".into()), x1.m())]),
            Self::C(x0, x1) => M::Enum("C".into(), VK::Tuple, vec![(None, x0.m()), (None, x1.m())]),
        }
    }
    fn hidden(&self) -> Vec<u8> {
        match self {
            _ => vec![],
        }
    }
    fn vals(n: usize, d: usize) -> Vec<Self> {
        let mut per: Vec<Vec<Self>> = vec![];
        per.push({ let l0 = <i32 as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); let l1 = <String as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); combos(&[l0.len(), l1.len()], n.max(1)).into_iter().map(|c: Vec<usize>| Self::B { x: l0[c[0]].dup(), y: l1[c[1]].dup() }).collect::<Vec<Self>>() });
        per.push({ let l0 = <i32 as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); let l1 = <String as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); combos(&[l0.len(), l1.len()], n.max(1)).into_iter().map(|c: Vec<usize>| Self::C(l0[c[0]].dup(), l1[c[1]].dup())).collect::<Vec<Self>>() });
        interleave(per, n)
    }
    fn into_v(self) -> Option<Value> { Some(self.into()) }
    fn dup(&self) -> Self {
        match self {
            Self::A => Self::A,
            Self::B { x: x0, y: x1 } => Self::B { x: x0.dup(), y: x1.dup() },
            Self::C(x0, x1) => Self::C(x0.dup(), x1.dup()),
        }
    }
    fn dfmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        std::fmt::Debug::fmt(self, f)
    }
}

#[allow(dead_code)]
#[derive(Reflect, Clone, Debug)]
pub enum SkipV2 {
    A,
    #[reflect(skip)]
    B {
        x: i32,
        y: String,
    },
    C(
        i32,
        String,
    ),
}
#[allow(unused_variables, unused_mut, clippy::all)]
impl Modeled for SkipV2 {
    fn t() -> T {
        T::Enum { name: std::any::type_name::<Self>(), variants: vec![VariantT { name: "A", kind: VK::Unit, fields: vec![], meta: vec![], docs: vec![] }, VariantT { name: "C", kind: VK::Tuple, fields: vec![FieldT { name: None, ty: <i32 as Modeled>::t, with: None, meta: vec![], docs: vec![] }, FieldT { name: None, ty: <String as Modeled>::t, with: None, meta: vec![], docs: vec![] }], meta: vec![], docs: vec![] }], skipped: vec!["B"], meta: vec![], docs: vec![] }
    }
    fn m(&self) -> M {
        match self {
            Self::A => M::Enum("A".into(), VK::Unit, vec![]),
            Self::B { x: x0, y: x1 } => M::Enum("B".into(), VK::Struct, vec![]),
            Self::C(x0, x1) => M::Enum("C".into(), VK::Tuple, vec![(None, x0.m()), (None, x1.m())]),
        }
    }
    fn hidden(&self) -> Vec<u8> {
        match self {
            _ => vec![],
        }
    }
    fn vals(n: usize, d: usize) -> Vec<Self> {
        let mut per: Vec<Vec<Self>> = vec![];
        per.push(vec![Self::A]);
        per.push({ let l0 = <i32 as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); let l1 = <String as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); combos(&[l0.len(), l1.len()], n.max(1)).into_iter().map(|c: Vec<usize>| Self::C(l0[c[0]].dup(), l1[c[1]].dup())).collect::<Vec<Self>>() });
        interleave(per, n)
    }
    fn into_v(self) -> Option<Value> { Some(self.into()) }
    fn dup(&self) -> Self {
        match self {
            Self::A => Self::A,
            Self::B { x: x0, y: x1 } => Self::B { x: x0.dup(), y: x1.dup() },
            Self::C(x0, x1) => Self::C(x0.dup(), x1.dup()),
        }
    }
    fn dfmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        std::fmt::Debug::fmt(self, f)
    }
}

#[allow(dead_code)]
#[derive(Reflect, Clone, Debug)]
pub enum SkipV3 {
    #[reflect(skip)]
    A,
    #[reflect(skip)]
    B {
        x: i32,
        y: String,
    },
    C(
        i32,
        String,
    ),
}
#[allow(unused_variables, unused_mut, clippy::all)]
impl Modeled for SkipV3 {
    fn t() -> T {
        T::Enum { name: std::any::type_name::<Self>(), variants: vec![VariantT { name: "C", kind: VK::Tuple, fields: vec![FieldT { name: None, ty: <i32 as Modeled>::t, with: None, meta: vec![], docs: vec![] }, FieldT { name: None, ty: <String as Modeled>::t, with: None, meta: vec![], docs: vec![] }], meta: vec![], docs: vec![] }], skipped: vec!["A", "B"], meta: vec![], docs: vec![] }
    }
    fn m(&self) -> M {
        match self {
            Self::A => M::Enum("A".into(), VK::Unit, vec![]),
            Self::B { x: x0, y: x1 } => M::Enum("B".into(), VK::Struct, vec![]),
            Self::C(x0, x1) => M::Enum("C".into(), VK::Tuple, vec![(None, x0.m()), (None, x1.m())]),
        }
    }
    fn hidden(&self) -> Vec<u8> {
        match self {
            _ => vec![],
        }
    }
    fn vals(n: usize, d: usize) -> Vec<Self> {
        let mut per: Vec<Vec<Self>> = vec![];
        per.push({ let l0 = <i32 as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); let l1 = <String as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); combos(&[l0.len(), l1.len()], n.max(1)).into_iter().map(|c: Vec<usize>| Self::C(l0[c[0]].dup(), l1[c[1]].dup())).collect::<Vec<Self>>() });
        interleave(per, n)
    }
    fn into_v(self) -> Option<Value> { Some(self.into()) }
    fn dup(&self) -> Self {
        match self {
            Self::A => Self::A,
            Self::B { x: x0, y: x1 } => Self::B { x: x0.dup(), y: x1.dup() },
            Self::C(x0, x1) => Self::C(x0.dup(), x1.dup()),
        }
    }
    fn dfmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        std::fmt::Debug::fmt(self, f)
    }
}

#[allow(dead_code)]
#[derive(Reflect, Clone, Debug)]
pub enum SkipV4 {
    A,
    B {
        x: i32,
        y: String,
    },
    #[reflect(skip)]
    C(
        i32,
        String,
    ),
}
#[allow(unused_variables, unused_mut, clippy::all)]
impl Modeled for SkipV4 {
    fn t() -> T {
        T::Enum { name: std::any::type_name::<Self>(), variants: vec![VariantT { name: "A", kind: VK::Unit, fields: vec![], meta: vec![], docs: vec![] }, VariantT { name: "B", kind: VK::Struct, fields: vec![FieldT { name: Some("x"), ty: <i32 as Modeled>::t, with: None, meta: vec![], docs: vec![] }, FieldT { name: Some("y"), ty: <String as Modeled>::t, with: None, meta: vec![], docs: vec![] }], meta: vec![], docs: vec![] }], skipped: vec!["C"], meta: vec![], docs: vec![] }
    }
    fn m(&self) -> M {
        match self {
            Self::A => M::Enum("A".into(), VK::Unit, vec![]),
            Self::B { x: x0, y: x1 } => M::Enum("B".into(), VK::Struct, vec![(Some("x".into()), x0.m()), (Some("y".into()), x1.m())]),
            Self::C(x0, x1) => M::Enum("C".into(), VK::Tuple, vec![]),
        }
    }
    fn hidden(&self) -> Vec<u8> {
        match self {
            _ => vec![],
        }
    }
    fn vals(n: usize, d: usize) -> Vec<Self> {
        let mut per: Vec<Vec<Self>> = vec![];
        per.push(vec![Self::A]);
        per.push({ let l0 = <i32 as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); let l1 = <String as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); combos(&[l0.len(), l1.len()], n.max(1)).into_iter().map(|c: Vec<usize>| Self::B { x: l0[c[0]].dup(), y: l1[c[1]].dup() }).collect::<Vec<Self>>() });
        interleave(per, n)
    }
    fn into_v(self) -> Option<Value> { Some(self.into()) }
    fn dup(&self) -> Self {
        match self {
            Self::A => Self::A,
            Self::B { x: x0, y: x1 } => Self::B { x: x0.dup(), y: x1.dup() },
            Self::C(x0, x1) => Self::C(x0.dup(), x1.dup()),
        }
    }
    fn dfmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        std::fmt::Debug::fmt(self, f)
    }
}

#[allow(dead_code)]
#[derive(Reflect, Clone, Debug)]
pub enum SkipV5 {
    #[reflect(skip)]
    A,
    B {
        x: i32,
        y: String,
    },
    #[reflect(skip)]
    C(
        i32,
        String,
    ),
}
#[allow(unused_variables, unused_mut, clippy::all)]
impl Modeled for SkipV5 {
    fn t() -> T {
        T::Enum { name: std::any::type_name::<Self>(), variants: vec![VariantT { name: "B", kind: VK::Struct, fields: vec![FieldT { name: Some("x"), ty: <i32 as Modeled>::t, with: None, meta: vec![], docs: vec![] }, FieldT { name: Some("y"), ty: <String as Modeled>::t, with: None, meta: vec![], docs: vec![] }], meta: vec![], docs: vec![] }], skipped: vec!["A", "C"], meta: vec![], docs: vec![] }
    }
    fn m(&self) -> M {
        match self {
            Self::A => M::Enum("A".into(), VK::Unit, vec![]),
            Self::B { x: x0, y: x1 } => M::Enum("B".into(), VK::Struct, vec![(Some("x".into()), x0.m()), (Some("y".into()), x1.m())]),
            Self::C(x0, x1) => M::Enum("C".into(), VK::Tuple, vec![]),
        }
    }
    fn hidden(&self) -> Vec<u8> {
        match self {
            _ => vec![],
        }
    }
    fn vals(n: usize, d: usize) -> Vec<Self> {
        let mut per: Vec<Vec<Self>> = vec![];
        per.push({ let l0 = <i32 as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); let l1 = <String as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); combos(&[l0.len(), l1.len()], n.max(1)).into_iter().map(|c: Vec<usize>| Self::B { x: l0[c[0]].dup(), y: l1[c[1]].dup() }).collect::<Vec<Self>>() });
        interleave(per, n)
    }
    fn into_v(self) -> Option<Value> { Some(self.into()) }
    fn dup(&self) -> Self {
        match self {
            Self::A => Self::A,
            Self::B { x: x0, y: x1 } => Self::B { x: x0.dup(), y: x1.dup() },
            Self::C(x0, x1) => Self::C(x0.dup(), x1.dup()),
        }
    }
    fn dfmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        std::fmt::Debug::fmt(self, f)
    }
}

#[allow(dead_code)]
#[derive(Reflect, Clone, Debug)]
pub enum SkipV6 {
    A,
    #[reflect(skip)]
    B {
        x: i32,
        y: String,
    },
    #[reflect(skip)]
    C(
        i32,
        String,
    ),
}
#[allow(unused_variables, unused_mut, clippy::all)]
impl Modeled for SkipV6 {
    fn t() -> T {
        T::Enum { name: std::any::type_name::<Self>(), variants: vec![VariantT { name: "A", kind: VK::Unit, fields: vec![], meta: vec![], docs: vec![] }], skipped: vec!["B", "C"], meta: vec![], docs: vec![] }
    }
    fn m(&self) -> M {
        match self {
            Self::A => M::Enum("A".into(), VK::Unit, vec![]),
            Self::B { x: x0, y: x1 } => M::Enum("B".into(), VK::Struct, vec![]),
            Self::C(x0, x1) => M::Enum("C".into(), VK::Tuple, vec![]),
        }
    }
    fn hidden(&self) -> Vec<u8> {
        match self {
            _ => vec![],
        }
    }
    fn vals(n: usize, d: usize) -> Vec<Self> {
        let mut per: Vec<Vec<Self>> = vec![];
        per.push(vec![Self::A]);
        interleave(per, n)
    }
    fn into_v(self) -> Option<Value> { Some(self.into()) }
    fn dup(&self) -> Self {
        match self {
            Self::A => Self::A,
            Self::B { x: x0, y: x1 } => Self::B { x: x0.dup(), y: x1.dup() },
            Self::C(x0, x1) => Self::C(x0.dup(), x1.dup()),
        }
    }
    fn dfmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        std::fmt::Debug::fmt(self, f)
    }
}

#[allow(dead_code)]
#[derive(Reflect, Clone, Debug)]
pub enum SkipFirst {
    #[reflect(skip)]
    A(
        #[reflect(skip)] Hid,
    ),
    B,
    C {
        #[reflect(skip)] h: Hid,
        x: u8,
    },
    #[reflect(skip)]
    D,
    E(
        u8,
        #[reflect(skip)] Hid,
        u8,
    ),
}
#[allow(unused_variables, unused_mut, clippy::all)]
impl Modeled for SkipFirst {
    fn t() -> T {
        T::Enum { name: std::any::type_name::<Self>(), variants: vec![VariantT { name: "B", kind: VK::Unit, fields: vec![], meta: vec![], docs: vec![] }, VariantT { name: "C", kind: VK::Struct, fields: vec![FieldT { name: Some("x"), ty: <u8 as Modeled>::t, with: None, meta: vec![], docs: vec![] }], meta: vec![], docs: vec![] }, VariantT { name: "E", kind: VK::Tuple, fields: vec![FieldT { name: None, ty: <u8 as Modeled>::t, with: None, meta: vec![], docs: vec![] }, FieldT { name: None, ty: <u8 as Modeled>::t, with: None, meta: vec![], docs: vec![] }], meta: vec![], docs: vec![] }], skipped: vec!["A", "D"], meta: vec![], docs: vec![] }
    }
    fn m(&self) -> M {
        match self {
            Self::A(x0) => M::Enum("A".into(), VK::Tuple, vec![]),
            Self::B => M::Enum("B".into(), VK::Unit, vec![]),
            Self::C { h: x0, x: x1 } => M::Enum("C".into(), VK::Struct, vec![(Some("x".into()), x1.m())]),
            Self::D => M::Enum("D".into(), VK::Unit, vec![]),
            Self::E(x0, x1, x2) => M::Enum("E".into(), VK::Tuple, vec![(None, x0.m()), (None, x2.m())]),
        }
    }
    fn hidden(&self) -> Vec<u8> {
        match self {
            Self::C { h: x0, x: x1 } => vec![x0.0],
            Self::E(x0, x1, x2) => vec![x1.0],
            _ => vec![],
        }
    }
    fn vals(n: usize, d: usize) -> Vec<Self> {
        let mut per: Vec<Vec<Self>> = vec![];
        per.push(vec![Self::B]);
        per.push({ let l1 = <u8 as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); combos(&[l1.len()], n.max(1)).into_iter().map(|c: Vec<usize>| Self::C { h: Hid(1), x: l1[c[0]].dup() }).collect::<Vec<Self>>() });
        per.push({ let l0 = <u8 as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); let l2 = <u8 as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); combos(&[l0.len(), l2.len()], n.max(1)).into_iter().map(|c: Vec<usize>| Self::E(l0[c[0]].dup(), Hid(2), l2[c[1]].dup())).collect::<Vec<Self>>() });
        interleave(per, n)
    }
    fn into_v(self) -> Option<Value> { Some(self.into()) }
    fn dup(&self) -> Self {
        match self {
            Self::A(x0) => Self::A(Hid(x0.0)),
            Self::B => Self::B,
            Self::C { h: x0, x: x1 } => Self::C { h: Hid(x0.0), x: x1.dup() },
            Self::D => Self::D,
            Self::E(x0, x1, x2) => Self::E(x0.dup(), Hid(x1.0), x2.dup()),
        }
    }
    fn dfmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        std::fmt::Debug::fmt(self, f)
    }
}

#[allow(dead_code)]
#[derive(Reflect, Clone, Debug)]
pub enum Empties {
    U,
    T(
    ),
    S {
    },
}
#[allow(unused_variables, unused_mut, clippy::all)]
impl Modeled for Empties {
    fn t() -> T {
        T::Enum { name: std::any::type_name::<Self>(), variants: vec![VariantT { name: "U", kind: VK::Unit, fields: vec![], meta: vec![], docs: vec![] }, VariantT { name: "T", kind: VK::Tuple, fields: vec![], meta: vec![], docs: vec![] }, VariantT { name: "S", kind: VK::Struct, fields: vec![], meta: vec![], docs: vec![] }], skipped: vec![], meta: vec![], docs: vec![] }
    }
    fn m(&self) -> M {
        match self {
            Self::U => M::Enum("U".into(), VK::Unit, vec![]),
            Self::T() => M::Enum("T".into(), VK::Tuple, vec![]),
            Self::S {  } => M::Enum("S".into(), VK::Struct, vec![]),
        }
    }
    fn hidden(&self) -> Vec<u8> {
        match self {
            _ => vec![],
        }
    }
    fn vals(n: usize, d: usize) -> Vec<Self> {
        let mut per: Vec<Vec<Self>> = vec![];
        per.push(vec![Self::U]);
        per.push({  combos(&[], n.max(1)).into_iter().map(|c: Vec<usize>| Self::T()).collect::<Vec<Self>>() });
        per.push({  combos(&[], n.max(1)).into_iter().map(|c: Vec<usize>| Self::S {  }).collect::<Vec<Self>>() });
        interleave(per, n)
    }
    fn into_v(self) -> Option<Value> { Some(self.into()) }
    fn dup(&self) -> Self {
        match self {
            Self::U => Self::U,
            Self::T() => Self::T(),
            Self::S {  } => Self::S {  },
        }
    }
    fn dfmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        std::fmt::Debug::fmt(self, f)
    }
}

#[allow(dead_code)]
#[derive(Reflect, Clone, Debug, PartialEq, Eq, PartialOrd, Ord)]
pub enum OneUnit {
    Only,
}
#[allow(unused_variables, unused_mut, clippy::all)]
impl Modeled for OneUnit {
    fn t() -> T {
        T::Enum { name: std::any::type_name::<Self>(), variants: vec![VariantT { name: "Only", kind: VK::Unit, fields: vec![], meta: vec![], docs: vec![] }], skipped: vec![], meta: vec![], docs: vec![] }
    }
    fn m(&self) -> M {
        match self {
            Self::Only => M::Enum("Only".into(), VK::Unit, vec![]),
        }
    }
    fn hidden(&self) -> Vec<u8> {
        match self {
            _ => vec![],
        }
    }
    fn vals(n: usize, d: usize) -> Vec<Self> {
        let mut per: Vec<Vec<Self>> = vec![];
        per.push(vec![Self::Only]);
        interleave(per, n)
    }
    fn into_v(self) -> Option<Value> { Some(self.into()) }
    fn dup(&self) -> Self {
        match self {
            Self::Only => Self::Only,
        }
    }
    fn dfmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        std::fmt::Debug::fmt(self, f)
    }
}

#[allow(dead_code)]
#[derive(Reflect, Clone, Debug)]
pub enum OneTuple {
    Only(
        u8,
    ),
}
#[allow(unused_variables, unused_mut, clippy::all)]
impl Modeled for OneTuple {
    fn t() -> T {
        T::Enum { name: std::any::type_name::<Self>(), variants: vec![VariantT { name: "Only", kind: VK::Tuple, fields: vec![FieldT { name: None, ty: <u8 as Modeled>::t, with: None, meta: vec![], docs: vec![] }], meta: vec![], docs: vec![] }], skipped: vec![], meta: vec![], docs: vec![] }
    }
    fn m(&self) -> M {
        match self {
            Self::Only(x0) => M::Enum("Only".into(), VK::Tuple, vec![(None, x0.m())]),
        }
    }
    fn hidden(&self) -> Vec<u8> {
        match self {
            _ => vec![],
        }
    }
    fn vals(n: usize, d: usize) -> Vec<Self> {
        let mut per: Vec<Vec<Self>> = vec![];
        per.push({ let l0 = <u8 as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); combos(&[l0.len()], n.max(1)).into_iter().map(|c: Vec<usize>| Self::Only(l0[c[0]].dup())).collect::<Vec<Self>>() });
        interleave(per, n)
    }
    fn into_v(self) -> Option<Value> { Some(self.into()) }
    fn dup(&self) -> Self {
        match self {
            Self::Only(x0) => Self::Only(x0.dup()),
        }
    }
    fn dfmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        std::fmt::Debug::fmt(self, f)
    }
}

#[allow(dead_code)]
#[derive(Reflect, Clone, Debug)]
pub enum OneStruct {
    Only {
        x: u8,
    },
}
#[allow(unused_variables, unused_mut, clippy::all)]
impl Modeled for OneStruct {
    fn t() -> T {
        T::Enum { name: std::any::type_name::<Self>(), variants: vec![VariantT { name: "Only", kind: VK::Struct, fields: vec![FieldT { name: Some("x"), ty: <u8 as Modeled>::t, with: None, meta: vec![], docs: vec![] }], meta: vec![], docs: vec![] }], skipped: vec![], meta: vec![], docs: vec![] }
    }
    fn m(&self) -> M {
        match self {
            Self::Only { x: x0 } => M::Enum("Only".into(), VK::Struct, vec![(Some("x".into()), x0.m())]),
        }
    }
    fn hidden(&self) -> Vec<u8> {
        match self {
            _ => vec![],
        }
    }
    fn vals(n: usize, d: usize) -> Vec<Self> {
        let mut per: Vec<Vec<Self>> = vec![];
        per.push({ let l0 = <u8 as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); combos(&[l0.len()], n.max(1)).into_iter().map(|c: Vec<usize>| Self::Only { x: l0[c[0]].dup() }).collect::<Vec<Self>>() });
        interleave(per, n)
    }
    fn into_v(self) -> Option<Value> { Some(self.into()) }
    fn dup(&self) -> Self {
        match self {
            Self::Only { x: x0 } => Self::Only { x: x0.dup() },
        }
    }
    fn dfmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        std::fmt::Debug::fmt(self, f)
    }
}

#[allow(dead_code)]
#[derive(Reflect, Clone, Debug, PartialEq, Eq, PartialOrd, Ord)]
pub enum Units {
    Zero,
    One,
    Two,
    Alpha,
}
#[allow(unused_variables, unused_mut, clippy::all)]
impl Modeled for Units {
    fn t() -> T {
        T::Enum { name: std::any::type_name::<Self>(), variants: vec![VariantT { name: "Zero", kind: VK::Unit, fields: vec![], meta: vec![], docs: vec![] }, VariantT { name: "One", kind: VK::Unit, fields: vec![], meta: vec![], docs: vec![] }, VariantT { name: "Two", kind: VK::Unit, fields: vec![], meta: vec![], docs: vec![] }, VariantT { name: "Alpha", kind: VK::Unit, fields: vec![], meta: vec![], docs: vec![] }], skipped: vec![], meta: vec![], docs: vec![] }
    }
    fn m(&self) -> M {
        match self {
            Self::Zero => M::Enum("Zero".into(), VK::Unit, vec![]),
            Self::One => M::Enum("One".into(), VK::Unit, vec![]),
            Self::Two => M::Enum("Two".into(), VK::Unit, vec![]),
            Self::Alpha => M::Enum("Alpha".into(), VK::Unit, vec![]),
        }
    }
    fn hidden(&self) -> Vec<u8> {
        match self {
            _ => vec![],
        }
    }
    fn vals(n: usize, d: usize) -> Vec<Self> {
        let mut per: Vec<Vec<Self>> = vec![];
        per.push(vec![Self::Zero]);
        per.push(vec![Self::One]);
        per.push(vec![Self::Two]);
        per.push(vec![Self::Alpha]);
        interleave(per, n)
    }
    fn into_v(self) -> Option<Value> { Some(self.into()) }
    fn dup(&self) -> Self {
        match self {
            Self::Zero => Self::Zero,
            Self::One => Self::One,
            Self::Two => Self::Two,
            Self::Alpha => Self::Alpha,
        }
    }
    fn dfmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        std::fmt::Debug::fmt(self, f)
    }
}

#[allow(dead_code)]
#[derive(Reflect, Clone, Debug)]
pub enum Overlap {
    A {
        x: i32,
        y: i32,
    },
    Ab {
        y: i32,
        x: i32,
    },
    Abc {
        x: String,
    },
    B(
        i32,
        i32,
    ),
    Ba(
        String,
    ),
    x,
}
#[allow(unused_variables, unused_mut, clippy::all)]
impl Modeled for Overlap {
    fn t() -> T {
        T::Enum { name: std::any::type_name::<Self>(), variants: vec![VariantT { name: "A", kind: VK::Struct, fields: vec![FieldT { name: Some("x"), ty: <i32 as Modeled>::t, with: None, meta: vec![], docs: vec![] }, FieldT { name: Some("y"), ty: <i32 as Modeled>::t, with: None, meta: vec![], docs: vec![] }], meta: vec![], docs: vec![] }, VariantT { name: "Ab", kind: VK::Struct, fields: vec![FieldT { name: Some("y"), ty: <i32 as Modeled>::t, with: None, meta: vec![], docs: vec![] }, FieldT { name: Some("x"), ty: <i32 as Modeled>::t, with: None, meta: vec![], docs: vec![] }], meta: vec![], docs: vec![] }, VariantT { name: "Abc", kind: VK::Struct, fields: vec![FieldT { name: Some("x"), ty: <String as Modeled>::t, with: None, meta: vec![], docs: vec![] }], meta: vec![], docs: vec![] }, VariantT { name: "B", kind: VK::Tuple, fields: vec![FieldT { name: None, ty: <i32 as Modeled>::t, with: None, meta: vec![], docs: vec![] }, FieldT { name: None, ty: <i32 as Modeled>::t, with: None, meta: vec![], docs: vec![] }], meta: vec![], docs: vec![] }, VariantT { name: "Ba", kind: VK::Tuple, fields: vec![FieldT { name: None, ty: <String as Modeled>::t, with: None, meta: vec![], docs: vec![] }], meta: vec![], docs: vec![] }, VariantT { name: "x", kind: VK::Unit, fields: vec![], meta: vec![], docs: vec![] }], skipped: vec![], meta: vec![], docs: vec![] }
    }
    fn m(&self) -> M {
        match self {
            Self::A { x: x0, y: x1 } => M::Enum("A".into(), VK::Struct, vec![(Some("x".into()), x0.m()), (Some("y".into()), x1.m())]),
            Self::Ab { y: x0, x: x1 } => M::Enum("Ab".into(), VK::Struct, vec![(Some("y".into()), x0.m()), (Some("x".into()), x1.m())]),
            Self::Abc { x: x0 } => M::Enum("Abc".into(), VK::Struct, vec![(Some("x".into()), x0.m())]),
            Self::B(x0, x1) => M::Enum("B".into(), VK::Tuple, vec![(None, x0.m()), (None, x1.m())]),
            Self::Ba(x0) => M::Enum("Ba".into(), VK::Tuple, vec![(None, x0.m())]),
            Self::x => M::Enum("x".into(), VK::Unit, vec![]),
        }
    }
    fn hidden(&self) -> Vec<u8> {
        match self {
            _ => vec![],
        }
    }
    fn vals(n: usize, d: usize) -> Vec<Self> {
        let mut per: Vec<Vec<Self>> = vec![];
        per.push({ let l0 = <i32 as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); let l1 = <i32 as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); combos(&[l0.len(), l1.len()], n.max(1)).into_iter().map(|c: Vec<usize>| Self::A { x: l0[c[0]].dup(), y: l1[c[1]].dup() }).collect::<Vec<Self>>() });
        per.push({ let l0 = <i32 as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); let l1 = <i32 as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); combos(&[l0.len(), l1.len()], n.max(1)).into_iter().map(|c: Vec<usize>| Self::Ab { y: l0[c[0]].dup(), x: l1[c[1]].dup() }).collect::<Vec<Self>>() });
        per.push({ let l0 = <String as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); combos(&[l0.len()], n.max(1)).into_iter().map(|c: Vec<usize>| Self::Abc { x: l0[c[0]].dup() }).collect::<Vec<Self>>() });
        per.push({ let l0 = <i32 as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); let l1 = <i32 as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); combos(&[l0.len(), l1.len()], n.max(1)).into_iter().map(|c: Vec<usize>| Self::B(l0[c[0]].dup(), l1[c[1]].dup())).collect::<Vec<Self>>() });
        per.push({ let l0 = <String as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); combos(&[l0.len()], n.max(1)).into_iter().map(|c: Vec<usize>| Self::Ba(l0[c[0]].dup())).collect::<Vec<Self>>() });
        per.push(vec![Self::x]);
        interleave(per, n)
    }
    fn into_v(self) -> Option<Value> { Some(self.into()) }
    fn dup(&self) -> Self {
        match self {
            Self::A { x: x0, y: x1 } => Self::A { x: x0.dup(), y: x1.dup() },
            Self::Ab { y: x0, x: x1 } => Self::Ab { y: x0.dup(), x: x1.dup() },
            Self::Abc { x: x0 } => Self::Abc { x: x0.dup() },
            Self::B(x0, x1) => Self::B(x0.dup(), x1.dup()),
            Self::Ba(x0) => Self::Ba(x0.dup()),
            Self::x => Self::x,
        }
    }
    fn dfmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        std::fmt::Debug::fmt(self, f)
    }
}

#[allow(dead_code)]
#[derive(Reflect, Clone)]
#[reflect(opt_out(Debug))]
pub struct OptDS {
    pub a: i32,
    #[reflect(skip)] pub h: Hid,
    pub b: Vec<u8>,
    pub c: NonZeroU8,
    pub e: [u8; 2],
}
#[allow(unused_variables, unused_mut, clippy::all)]
impl Modeled for OptDS {
    fn t() -> T {
        T::Struct { name: std::any::type_name::<Self>(), fields: vec![FieldT { name: Some("a"), ty: <i32 as Modeled>::t, with: None, meta: vec![], docs: vec![] }, FieldT { name: Some("b"), ty: <Vec<u8> as Modeled>::t, with: None, meta: vec![], docs: vec![] }, FieldT { name: Some("c"), ty: <NonZeroU8 as Modeled>::t, with: None, meta: vec![], docs: vec![] }, FieldT { name: Some("e"), ty: <[u8; 2] as Modeled>::t, with: None, meta: vec![], docs: vec![] }], meta: vec![], docs: vec![] }
    }
    fn m(&self) -> M {
        M::Struct(vec![("a".to_owned(), self.a.m()), ("b".to_owned(), self.b.m()), ("c".to_owned(), self.c.m()), ("e".to_owned(), self.e.m())])
    }
    fn hidden(&self) -> Vec<u8> {
        vec![self.h.0]
    }
    fn vals(n: usize, d: usize) -> Vec<Self> {
        let l0 = <i32 as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); let l2 = <Vec<u8> as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); let l3 = <NonZeroU8 as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); let l4 = <[u8; 2] as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); combos(&[l0.len(), l2.len(), l3.len(), l4.len()], n.max(1)).into_iter().map(|c: Vec<usize>| Self { a: l0[c[0]].dup(), h: Hid(2), b: l2[c[1]].dup(), c: l3[c[2]].dup(), e: l4[c[3]].dup() }).collect::<Vec<Self>>()
    }
    fn into_v(self) -> Option<Value> { Some(self.into()) }
    fn dup(&self) -> Self {
        Self { a: self.a.dup(), h: Hid(self.h.0), b: self.b.dup(), c: self.c.dup(), e: self.e.dup() }
    }
    fn dfmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.debug_struct(std::any::type_name::<Self>()).field("a", &Dbg(&self.a)).field("b", &Dbg(&self.b)).field("c", &Dbg(&self.c)).field("e", &Dbg(&self.e)).finish()
    }
}

#[allow(dead_code)]
#[derive(Reflect, Clone)]
#[reflect(opt_out(Debug))]
pub struct OptDT(
    #[reflect(skip)] pub Hid,
    pub String,
    pub Option<u8>,
    pub NonZeroU8,
);
#[allow(unused_variables, unused_mut, clippy::all)]
impl Modeled for OptDT {
    fn t() -> T {
        T::TupleStruct { name: std::any::type_name::<Self>(), fields: vec![FieldT { name: None, ty: <String as Modeled>::t, with: None, meta: vec![], docs: vec![] }, FieldT { name: None, ty: <Option<u8> as Modeled>::t, with: None, meta: vec![], docs: vec![] }, FieldT { name: None, ty: <NonZeroU8 as Modeled>::t, with: None, meta: vec![], docs: vec![] }], meta: vec![], docs: vec![] }
    }
    fn m(&self) -> M {
        M::TupleStruct(vec![self.1.m(), self.2.m(), self.3.m()])
    }
    fn hidden(&self) -> Vec<u8> {
        vec![self.0.0]
    }
    fn vals(n: usize, d: usize) -> Vec<Self> {
        let l1 = <String as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); let l2 = <Option<u8> as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); let l3 = <NonZeroU8 as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); combos(&[l1.len(), l2.len(), l3.len()], n.max(1)).into_iter().map(|c: Vec<usize>| Self(Hid(1), l1[c[0]].dup(), l2[c[1]].dup(), l3[c[2]].dup())).collect::<Vec<Self>>()
    }
    fn into_v(self) -> Option<Value> { Some(self.into()) }
    fn dup(&self) -> Self {
        Self(Hid(self.0.0), self.1.dup(), self.2.dup(), self.3.dup())
    }
    fn dfmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.debug_tuple(std::any::type_name::<Self>()).field(&Dbg(&self.1)).field(&Dbg(&self.2)).field(&Dbg(&self.3)).finish()
    }
}

#[allow(dead_code)]
#[derive(Reflect, Clone)]
#[reflect(opt_out(Debug))]
pub enum OptDE {
    A,
    B(
        #[reflect(skip)] Hid,
        i32,
        [u8; 2],
    ),
    C {
        #[reflect(skip)] h: Hid,
        x: NonZeroU8,
        y: Vec<u8>,
    },
}
#[allow(unused_variables, unused_mut, clippy::all)]
impl Modeled for OptDE {
    fn t() -> T {
        T::Enum { name: std::any::type_name::<Self>(), variants: vec![VariantT { name: "A", kind: VK::Unit, fields: vec![], meta: vec![], docs: vec![] }, VariantT { name: "B", kind: VK::Tuple, fields: vec![FieldT { name: None, ty: <i32 as Modeled>::t, with: None, meta: vec![], docs: vec![] }, FieldT { name: None, ty: <[u8; 2] as Modeled>::t, with: None, meta: vec![], docs: vec![] }], meta: vec![], docs: vec![] }, VariantT { name: "C", kind: VK::Struct, fields: vec![FieldT { name: Some("x"), ty: <NonZeroU8 as Modeled>::t, with: None, meta: vec![], docs: vec![] }, FieldT { name: Some("y"), ty: <Vec<u8> as Modeled>::t, with: None, meta: vec![], docs: vec![] }], meta: vec![], docs: vec![] }], skipped: vec![], meta: vec![], docs: vec![] }
    }
    fn m(&self) -> M {
        match self {
            Self::A => M::Enum("A".into(), VK::Unit, vec![]),
            Self::B(x0, x1, x2) => M::Enum("B".into(), VK::Tuple, vec![(None, x1.m()), (None, x2.m())]),
            Self::C { h: x0, x: x1, y: x2 } => M::Enum("C".into(), VK::Struct, vec![(Some("x".into()), x1.m()), (Some("y".into()), x2.m())]),
        }
    }
    fn hidden(&self) -> Vec<u8> {
        match self {
            Self::B(x0, x1, x2) => vec![x0.0],
            Self::C { h: x0, x: x1, y: x2 } => vec![x0.0],
            _ => vec![],
        }
    }
    fn vals(n: usize, d: usize) -> Vec<Self> {
        let mut per: Vec<Vec<Self>> = vec![];
        per.push(vec![Self::A]);
        per.push({ let l1 = <i32 as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); let l2 = <[u8; 2] as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); combos(&[l1.len(), l2.len()], n.max(1)).into_iter().map(|c: Vec<usize>| Self::B(Hid(1), l1[c[0]].dup(), l2[c[1]].dup())).collect::<Vec<Self>>() });
        per.push({ let l1 = <NonZeroU8 as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); let l2 = <Vec<u8> as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); combos(&[l1.len(), l2.len()], n.max(1)).into_iter().map(|c: Vec<usize>| Self::C { h: Hid(1), x: l1[c[0]].dup(), y: l2[c[1]].dup() }).collect::<Vec<Self>>() });
        interleave(per, n)
    }
    fn into_v(self) -> Option<Value> { Some(self.into()) }
    fn dup(&self) -> Self {
        match self {
            Self::A => Self::A,
            Self::B(x0, x1, x2) => Self::B(Hid(x0.0), x1.dup(), x2.dup()),
            Self::C { h: x0, x: x1, y: x2 } => Self::C { h: Hid(x0.0), x: x1.dup(), y: x2.dup() },
        }
    }
    fn dfmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        match self {
            Self::A => f.write_str("A"),
            Self::B(x0, x1, x2) => f.debug_tuple("B").field(&Dbg(x1)).field(&Dbg(x2)).finish(),
            Self::C { h: x0, x: x1, y: x2 } => f.debug_struct("C").field("x", &Dbg(x1)).field("y", &Dbg(x2)).finish(),
        }
    }
}

#[allow(dead_code)]
#[derive(Reflect, Debug)]
#[reflect(opt_out(Clone))]
pub struct OptCS {
    pub a: i32,
    #[reflect(skip)] pub h: Hid,
    pub b: Vec<u8>,
    pub c: NonZeroU8,
    pub e: [u8; 2],
}
#[allow(unused_variables, unused_mut, clippy::all)]
impl Modeled for OptCS {
    fn t() -> T {
        T::Struct { name: std::any::type_name::<Self>(), fields: vec![FieldT { name: Some("a"), ty: <i32 as Modeled>::t, with: None, meta: vec![], docs: vec![] }, FieldT { name: Some("b"), ty: <Vec<u8> as Modeled>::t, with: None, meta: vec![], docs: vec![] }, FieldT { name: Some("c"), ty: <NonZeroU8 as Modeled>::t, with: None, meta: vec![], docs: vec![] }, FieldT { name: Some("e"), ty: <[u8; 2] as Modeled>::t, with: None, meta: vec![], docs: vec![] }], meta: vec![], docs: vec![] }
    }
    fn m(&self) -> M {
        M::Struct(vec![("a".to_owned(), self.a.m()), ("b".to_owned(), self.b.m()), ("c".to_owned(), self.c.m()), ("e".to_owned(), self.e.m())])
    }
    fn hidden(&self) -> Vec<u8> {
        vec![self.h.0]
    }
    fn vals(n: usize, d: usize) -> Vec<Self> {
        let l0 = <i32 as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); let l2 = <Vec<u8> as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); let l3 = <NonZeroU8 as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); let l4 = <[u8; 2] as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); combos(&[l0.len(), l2.len(), l3.len(), l4.len()], n.max(1)).into_iter().map(|c: Vec<usize>| Self { a: l0[c[0]].dup(), h: Hid(2), b: l2[c[1]].dup(), c: l3[c[2]].dup(), e: l4[c[3]].dup() }).collect::<Vec<Self>>()
    }
    fn into_v(self) -> Option<Value> { Some(self.into()) }
    fn dup(&self) -> Self {
        Self { a: self.a.dup(), h: Hid(self.h.0), b: self.b.dup(), c: self.c.dup(), e: self.e.dup() }
    }
    fn dfmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        std::fmt::Debug::fmt(self, f)
    }
}

#[allow(dead_code)]
#[derive(Reflect, Debug)]
#[reflect(opt_out(Clone))]
pub struct OptCT(
    #[reflect(skip)] pub Hid,
    pub String,
    pub Option<u8>,
    pub NonZeroU8,
);
#[allow(unused_variables, unused_mut, clippy::all)]
impl Modeled for OptCT {
    fn t() -> T {
        T::TupleStruct { name: std::any::type_name::<Self>(), fields: vec![FieldT { name: None, ty: <String as Modeled>::t, with: None, meta: vec![], docs: vec![] }, FieldT { name: None, ty: <Option<u8> as Modeled>::t, with: None, meta: vec![], docs: vec![] }, FieldT { name: None, ty: <NonZeroU8 as Modeled>::t, with: None, meta: vec![], docs: vec![] }], meta: vec![], docs: vec![] }
    }
    fn m(&self) -> M {
        M::TupleStruct(vec![self.1.m(), self.2.m(), self.3.m()])
    }
    fn hidden(&self) -> Vec<u8> {
        vec![self.0.0]
    }
    fn vals(n: usize, d: usize) -> Vec<Self> {
        let l1 = <String as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); let l2 = <Option<u8> as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); let l3 = <NonZeroU8 as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); combos(&[l1.len(), l2.len(), l3.len()], n.max(1)).into_iter().map(|c: Vec<usize>| Self(Hid(1), l1[c[0]].dup(), l2[c[1]].dup(), l3[c[2]].dup())).collect::<Vec<Self>>()
    }
    fn into_v(self) -> Option<Value> { Some(self.into()) }
    fn dup(&self) -> Self {
        Self(Hid(self.0.0), self.1.dup(), self.2.dup(), self.3.dup())
    }
    fn dfmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        std::fmt::Debug::fmt(self, f)
    }
}

#[allow(dead_code)]
#[derive(Reflect, Debug)]
#[reflect(opt_out(Clone))]
pub enum OptCE {
    A,
    B(
        #[reflect(skip)] Hid,
        i32,
        [u8; 2],
    ),
    C {
        #[reflect(skip)] h: Hid,
        x: NonZeroU8,
        y: Vec<u8>,
    },
}
#[allow(unused_variables, unused_mut, clippy::all)]
impl Modeled for OptCE {
    fn t() -> T {
        T::Enum { name: std::any::type_name::<Self>(), variants: vec![VariantT { name: "A", kind: VK::Unit, fields: vec![], meta: vec![], docs: vec![] }, VariantT { name: "B", kind: VK::Tuple, fields: vec![FieldT { name: None, ty: <i32 as Modeled>::t, with: None, meta: vec![], docs: vec![] }, FieldT { name: None, ty: <[u8; 2] as Modeled>::t, with: None, meta: vec![], docs: vec![] }], meta: vec![], docs: vec![] }, VariantT { name: "C", kind: VK::Struct, fields: vec![FieldT { name: Some("x"), ty: <NonZeroU8 as Modeled>::t, with: None, meta: vec![], docs: vec![] }, FieldT { name: Some("y"), ty: <Vec<u8> as Modeled>::t, with: None, meta: vec![], docs: vec![] }], meta: vec![], docs: vec![] }], skipped: vec![], meta: vec![], docs: vec![] }
    }
    fn m(&self) -> M {
        match self {
            Self::A => M::Enum("A".into(), VK::Unit, vec![]),
            Self::B(x0, x1, x2) => M::Enum("B".into(), VK::Tuple, vec![(None, x1.m()), (None, x2.m())]),
            Self::C { h: x0, x: x1, y: x2 } => M::Enum("C".into(), VK::Struct, vec![(Some("x".into()), x1.m()), (Some("y".into()), x2.m())]),
        }
    }
    fn hidden(&self) -> Vec<u8> {
        match self {
            Self::B(x0, x1, x2) => vec![x0.0],
            Self::C { h: x0, x: x1, y: x2 } => vec![x0.0],
            _ => vec![],
        }
    }
    fn vals(n: usize, d: usize) -> Vec<Self> {
        let mut per: Vec<Vec<Self>> = vec![];
        per.push(vec![Self::A]);
        per.push({ let l1 = <i32 as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); let l2 = <[u8; 2] as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); combos(&[l1.len(), l2.len()], n.max(1)).into_iter().map(|c: Vec<usize>| Self::B(Hid(1), l1[c[0]].dup(), l2[c[1]].dup())).collect::<Vec<Self>>() });
        per.push({ let l1 = <NonZeroU8 as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); let l2 = <Vec<u8> as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); combos(&[l1.len(), l2.len()], n.max(1)).into_iter().map(|c: Vec<usize>| Self::C { h: Hid(1), x: l1[c[0]].dup(), y: l2[c[1]].dup() }).collect::<Vec<Self>>() });
        interleave(per, n)
    }
    fn into_v(self) -> Option<Value> { Some(self.into()) }
    fn dup(&self) -> Self {
        match self {
            Self::A => Self::A,
            Self::B(x0, x1, x2) => Self::B(Hid(x0.0), x1.dup(), x2.dup()),
            Self::C { h: x0, x: x1, y: x2 } => Self::C { h: Hid(x0.0), x: x1.dup(), y: x2.dup() },
        }
    }
    fn dfmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        std::fmt::Debug::fmt(self, f)
    }
}

#[allow(dead_code)]
#[derive(Reflect, Clone, Debug)]
#[reflect(opt_out(FromReflect))]
pub struct OptFS {
    pub a: i32,
    #[reflect(skip)] pub h: Hid,
    pub b: Vec<u8>,
    pub c: NonZeroU8,
    pub e: [u8; 2],
}
impl FromReflect for OptFS {
    fn from_reflect(reflect: &dyn Reflect) -> Option<Self> {
        let s = reflect.as_struct()?;
        let _ = s;
        Some(Self {
            a: FromReflect::from_reflect(s.field("a")?)?,
            h: Hid::default(),
            b: FromReflect::from_reflect(s.field("b")?)?,
            c: FromReflect::from_reflect(s.field("c")?)?,
            e: FromReflect::from_reflect(s.field("e")?)?,
        })
    }
}
#[allow(unused_variables, unused_mut, clippy::all)]
impl Modeled for OptFS {
    fn t() -> T {
        T::Struct { name: std::any::type_name::<Self>(), fields: vec![FieldT { name: Some("a"), ty: <i32 as Modeled>::t, with: None, meta: vec![], docs: vec![] }, FieldT { name: Some("b"), ty: <Vec<u8> as Modeled>::t, with: None, meta: vec![], docs: vec![] }, FieldT { name: Some("c"), ty: <NonZeroU8 as Modeled>::t, with: None, meta: vec![], docs: vec![] }, FieldT { name: Some("e"), ty: <[u8; 2] as Modeled>::t, with: None, meta: vec![], docs: vec![] }], meta: vec![], docs: vec![] }
    }
    fn m(&self) -> M {
        M::Struct(vec![("a".to_owned(), self.a.m()), ("b".to_owned(), self.b.m()), ("c".to_owned(), self.c.m()), ("e".to_owned(), self.e.m())])
    }
    fn hidden(&self) -> Vec<u8> {
        vec![self.h.0]
    }
    fn vals(n: usize, d: usize) -> Vec<Self> {
        let l0 = <i32 as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); let l2 = <Vec<u8> as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); let l3 = <NonZeroU8 as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); let l4 = <[u8; 2] as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); combos(&[l0.len(), l2.len(), l3.len(), l4.len()], n.max(1)).into_iter().map(|c: Vec<usize>| Self { a: l0[c[0]].dup(), h: Hid(2), b: l2[c[1]].dup(), c: l3[c[2]].dup(), e: l4[c[3]].dup() }).collect::<Vec<Self>>()
    }
    fn into_v(self) -> Option<Value> { Some(self.into()) }
    fn dup(&self) -> Self {
        Self { a: self.a.dup(), h: Hid(self.h.0), b: self.b.dup(), c: self.c.dup(), e: self.e.dup() }
    }
    fn dfmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        std::fmt::Debug::fmt(self, f)
    }
}

#[allow(dead_code)]
#[derive(Reflect, Clone, Debug)]
#[reflect(opt_out(FromReflect))]
pub struct OptFT(
    #[reflect(skip)] pub Hid,
    pub String,
    pub Option<u8>,
    pub NonZeroU8,
);
impl FromReflect for OptFT {
    fn from_reflect(reflect: &dyn Reflect) -> Option<Self> {
        let s = reflect.as_tuple_struct()?;
        let _ = s;
        Some(Self(Hid::default(), FromReflect::from_reflect(s.field_at(0)?)?, FromReflect::from_reflect(s.field_at(1)?)?, FromReflect::from_reflect(s.field_at(2)?)?))
    }
}
#[allow(unused_variables, unused_mut, clippy::all)]
impl Modeled for OptFT {
    fn t() -> T {
        T::TupleStruct { name: std::any::type_name::<Self>(), fields: vec![FieldT { name: None, ty: <String as Modeled>::t, with: None, meta: vec![], docs: vec![] }, FieldT { name: None, ty: <Option<u8> as Modeled>::t, with: None, meta: vec![], docs: vec![] }, FieldT { name: None, ty: <NonZeroU8 as Modeled>::t, with: None, meta: vec![], docs: vec![] }], meta: vec![], docs: vec![] }
    }
    fn m(&self) -> M {
        M::TupleStruct(vec![self.1.m(), self.2.m(), self.3.m()])
    }
    fn hidden(&self) -> Vec<u8> {
        vec![self.0.0]
    }
    fn vals(n: usize, d: usize) -> Vec<Self> {
        let l1 = <String as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); let l2 = <Option<u8> as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); let l3 = <NonZeroU8 as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); combos(&[l1.len(), l2.len(), l3.len()], n.max(1)).into_iter().map(|c: Vec<usize>| Self(Hid(1), l1[c[0]].dup(), l2[c[1]].dup(), l3[c[2]].dup())).collect::<Vec<Self>>()
    }
    fn into_v(self) -> Option<Value> { Some(self.into()) }
    fn dup(&self) -> Self {
        Self(Hid(self.0.0), self.1.dup(), self.2.dup(), self.3.dup())
    }
    fn dfmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        std::fmt::Debug::fmt(self, f)
    }
}

#[allow(dead_code)]
#[derive(Reflect, Clone, Debug)]
#[reflect(opt_out(FromReflect))]
pub enum OptFE {
    A,
    B(
        #[reflect(skip)] Hid,
        i32,
        [u8; 2],
    ),
    C {
        #[reflect(skip)] h: Hid,
        x: NonZeroU8,
        y: Vec<u8>,
    },
}
impl FromReflect for OptFE {
    fn from_reflect(reflect: &dyn Reflect) -> Option<Self> {
        let e = reflect.as_enum()?;
        match e.variant_name() {
            "A" => Some(Self::A),
            "B" => Some(Self::B(Hid::default(), FromReflect::from_reflect(e.field_at(0)?)?, FromReflect::from_reflect(e.field_at(1)?)?)),
            "C" => Some(Self::C { h: Hid::default(), x: FromReflect::from_reflect(e.field("x")?)?, y: FromReflect::from_reflect(e.field("y")?)? }),
            _ => None,
        }
    }
}
#[allow(unused_variables, unused_mut, clippy::all)]
impl Modeled for OptFE {
    fn t() -> T {
        T::Enum { name: std::any::type_name::<Self>(), variants: vec![VariantT { name: "A", kind: VK::Unit, fields: vec![], meta: vec![], docs: vec![] }, VariantT { name: "B", kind: VK::Tuple, fields: vec![FieldT { name: None, ty: <i32 as Modeled>::t, with: None, meta: vec![], docs: vec![] }, FieldT { name: None, ty: <[u8; 2] as Modeled>::t, with: None, meta: vec![], docs: vec![] }], meta: vec![], docs: vec![] }, VariantT { name: "C", kind: VK::Struct, fields: vec![FieldT { name: Some("x"), ty: <NonZeroU8 as Modeled>::t, with: None, meta: vec![], docs: vec![] }, FieldT { name: Some("y"), ty: <Vec<u8> as Modeled>::t, with: None, meta: vec![], docs: vec![] }], meta: vec![], docs: vec![] }], skipped: vec![], meta: vec![], docs: vec![] }
    }
    fn m(&self) -> M {
        match self {
            Self::A => M::Enum("A".into(), VK::Unit, vec![]),
            Self::B(x0, x1, x2) => M::Enum("B".into(), VK::Tuple, vec![(None, x1.m()), (None, x2.m())]),
            Self::C { h: x0, x: x1, y: x2 } => M::Enum("C".into(), VK::Struct, vec![(Some("x".into()), x1.m()), (Some("y".into()), x2.m())]),
        }
    }
    fn hidden(&self) -> Vec<u8> {
        match self {
            Self::B(x0, x1, x2) => vec![x0.0],
            Self::C { h: x0, x: x1, y: x2 } => vec![x0.0],
            _ => vec![],
        }
    }
    fn vals(n: usize, d: usize) -> Vec<Self> {
        let mut per: Vec<Vec<Self>> = vec![];
        per.push(vec![Self::A]);
        per.push({ let l1 = <i32 as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); let l2 = <[u8; 2] as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); combos(&[l1.len(), l2.len()], n.max(1)).into_iter().map(|c: Vec<usize>| Self::B(Hid(1), l1[c[0]].dup(), l2[c[1]].dup())).collect::<Vec<Self>>() });
        per.push({ let l1 = <NonZeroU8 as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); let l2 = <Vec<u8> as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); combos(&[l1.len(), l2.len()], n.max(1)).into_iter().map(|c: Vec<usize>| Self::C { h: Hid(1), x: l1[c[0]].dup(), y: l2[c[1]].dup() }).collect::<Vec<Self>>() });
        interleave(per, n)
    }
    fn into_v(self) -> Option<Value> { Some(self.into()) }
    fn dup(&self) -> Self {
        match self {
            Self::A => Self::A,
            Self::B(x0, x1, x2) => Self::B(Hid(x0.0), x1.dup(), x2.dup()),
            Self::C { h: x0, x: x1, y: x2 } => Self::C { h: Hid(x0.0), x: x1.dup(), y: x2.dup() },
        }
    }
    fn dfmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        std::fmt::Debug::fmt(self, f)
    }
}

#[allow(dead_code)]
#[derive(Reflect)]
#[reflect(opt_out(Debug, Clone))]
pub struct OptDCS {
    pub a: i32,
    #[reflect(skip)] pub h: Hid,
    pub b: Vec<u8>,
    pub c: NonZeroU8,
    pub e: [u8; 2],
}
#[allow(unused_variables, unused_mut, clippy::all)]
impl Modeled for OptDCS {
    fn t() -> T {
        T::Struct { name: std::any::type_name::<Self>(), fields: vec![FieldT { name: Some("a"), ty: <i32 as Modeled>::t, with: None, meta: vec![], docs: vec![] }, FieldT { name: Some("b"), ty: <Vec<u8> as Modeled>::t, with: None, meta: vec![], docs: vec![] }, FieldT { name: Some("c"), ty: <NonZeroU8 as Modeled>::t, with: None, meta: vec![], docs: vec![] }, FieldT { name: Some("e"), ty: <[u8; 2] as Modeled>::t, with: None, meta: vec![], docs: vec![] }], meta: vec![], docs: vec![] }
    }
    fn m(&self) -> M {
        M::Struct(vec![("a".to_owned(), self.a.m()), ("b".to_owned(), self.b.m()), ("c".to_owned(), self.c.m()), ("e".to_owned(), self.e.m())])
    }
    fn hidden(&self) -> Vec<u8> {
        vec![self.h.0]
    }
    fn vals(n: usize, d: usize) -> Vec<Self> {
        let l0 = <i32 as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); let l2 = <Vec<u8> as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); let l3 = <NonZeroU8 as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); let l4 = <[u8; 2] as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); combos(&[l0.len(), l2.len(), l3.len(), l4.len()], n.max(1)).into_iter().map(|c: Vec<usize>| Self { a: l0[c[0]].dup(), h: Hid(2), b: l2[c[1]].dup(), c: l3[c[2]].dup(), e: l4[c[3]].dup() }).collect::<Vec<Self>>()
    }
    fn into_v(self) -> Option<Value> { Some(self.into()) }
    fn dup(&self) -> Self {
        Self { a: self.a.dup(), h: Hid(self.h.0), b: self.b.dup(), c: self.c.dup(), e: self.e.dup() }
    }
    fn dfmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.debug_struct(std::any::type_name::<Self>()).field("a", &Dbg(&self.a)).field("b", &Dbg(&self.b)).field("c", &Dbg(&self.c)).field("e", &Dbg(&self.e)).finish()
    }
}

#[allow(dead_code)]
#[derive(Reflect)]
#[reflect(opt_out(Debug, Clone))]
pub struct OptDCT(
    #[reflect(skip)] pub Hid,
    pub String,
    pub Option<u8>,
    pub NonZeroU8,
);
#[allow(unused_variables, unused_mut, clippy::all)]
impl Modeled for OptDCT {
    fn t() -> T {
        T::TupleStruct { name: std::any::type_name::<Self>(), fields: vec![FieldT { name: None, ty: <String as Modeled>::t, with: None, meta: vec![], docs: vec![] }, FieldT { name: None, ty: <Option<u8> as Modeled>::t, with: None, meta: vec![], docs: vec![] }, FieldT { name: None, ty: <NonZeroU8 as Modeled>::t, with: None, meta: vec![], docs: vec![] }], meta: vec![], docs: vec![] }
    }
    fn m(&self) -> M {
        M::TupleStruct(vec![self.1.m(), self.2.m(), self.3.m()])
    }
    fn hidden(&self) -> Vec<u8> {
        vec![self.0.0]
    }
    fn vals(n: usize, d: usize) -> Vec<Self> {
        let l1 = <String as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); let l2 = <Option<u8> as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); let l3 = <NonZeroU8 as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); combos(&[l1.len(), l2.len(), l3.len()], n.max(1)).into_iter().map(|c: Vec<usize>| Self(Hid(1), l1[c[0]].dup(), l2[c[1]].dup(), l3[c[2]].dup())).collect::<Vec<Self>>()
    }
    fn into_v(self) -> Option<Value> { Some(self.into()) }
    fn dup(&self) -> Self {
        Self(Hid(self.0.0), self.1.dup(), self.2.dup(), self.3.dup())
    }
    fn dfmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.debug_tuple(std::any::type_name::<Self>()).field(&Dbg(&self.1)).field(&Dbg(&self.2)).field(&Dbg(&self.3)).finish()
    }
}

#[allow(dead_code)]
#[derive(Reflect)]
#[reflect(opt_out(Debug, Clone))]
pub enum OptDCE {
    A,
    B(
        #[reflect(skip)] Hid,
        i32,
        [u8; 2],
    ),
    C {
        #[reflect(skip)] h: Hid,
        x: NonZeroU8,
        y: Vec<u8>,
    },
}
#[allow(unused_variables, unused_mut, clippy::all)]
impl Modeled for OptDCE {
    fn t() -> T {
        T::Enum { name: std::any::type_name::<Self>(), variants: vec![VariantT { name: "A", kind: VK::Unit, fields: vec![], meta: vec![], docs: vec![] }, VariantT { name: "B", kind: VK::Tuple, fields: vec![FieldT { name: None, ty: <i32 as Modeled>::t, with: None, meta: vec![], docs: vec![] }, FieldT { name: None, ty: <[u8; 2] as Modeled>::t, with: None, meta: vec![], docs: vec![] }], meta: vec![], docs: vec![] }, VariantT { name: "C", kind: VK::Struct, fields: vec![FieldT { name: Some("x"), ty: <NonZeroU8 as Modeled>::t, with: None, meta: vec![], docs: vec![] }, FieldT { name: Some("y"), ty: <Vec<u8> as Modeled>::t, with: None, meta: vec![], docs: vec![] }], meta: vec![], docs: vec![] }], skipped: vec![], meta: vec![], docs: vec![] }
    }
    fn m(&self) -> M {
        match self {
            Self::A => M::Enum("A".into(), VK::Unit, vec![]),
            Self::B(x0, x1, x2) => M::Enum("B".into(), VK::Tuple, vec![(None, x1.m()), (None, x2.m())]),
            Self::C { h: x0, x: x1, y: x2 } => M::Enum("C".into(), VK::Struct, vec![(Some("x".into()), x1.m()), (Some("y".into()), x2.m())]),
        }
    }
    fn hidden(&self) -> Vec<u8> {
        match self {
            Self::B(x0, x1, x2) => vec![x0.0],
            Self::C { h: x0, x: x1, y: x2 } => vec![x0.0],
            _ => vec![],
        }
    }
    fn vals(n: usize, d: usize) -> Vec<Self> {
        let mut per: Vec<Vec<Self>> = vec![];
        per.push(vec![Self::A]);
        per.push({ let l1 = <i32 as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); let l2 = <[u8; 2] as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); combos(&[l1.len(), l2.len()], n.max(1)).into_iter().map(|c: Vec<usize>| Self::B(Hid(1), l1[c[0]].dup(), l2[c[1]].dup())).collect::<Vec<Self>>() });
        per.push({ let l1 = <NonZeroU8 as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); let l2 = <Vec<u8> as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); combos(&[l1.len(), l2.len()], n.max(1)).into_iter().map(|c: Vec<usize>| Self::C { h: Hid(1), x: l1[c[0]].dup(), y: l2[c[1]].dup() }).collect::<Vec<Self>>() });
        interleave(per, n)
    }
    fn into_v(self) -> Option<Value> { Some(self.into()) }
    fn dup(&self) -> Self {
        match self {
            Self::A => Self::A,
            Self::B(x0, x1, x2) => Self::B(Hid(x0.0), x1.dup(), x2.dup()),
            Self::C { h: x0, x: x1, y: x2 } => Self::C { h: Hid(x0.0), x: x1.dup(), y: x2.dup() },
        }
    }
    fn dfmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        match self {
            Self::A => f.write_str("A"),
            Self::B(x0, x1, x2) => f.debug_tuple("B").field(&Dbg(x1)).field(&Dbg(x2)).finish(),
            Self::C { h: x0, x: x1, y: x2 } => f.debug_struct("C").field("x", &Dbg(x1)).field("y", &Dbg(x2)).finish(),
        }
    }
}

#[allow(dead_code)]
#[derive(Reflect, Clone)]
#[reflect(opt_out(Debug, FromReflect))]
pub struct OptDFS {
    pub a: i32,
    #[reflect(skip)] pub h: Hid,
    pub b: Vec<u8>,
    pub c: NonZeroU8,
    pub e: [u8; 2],
}
impl FromReflect for OptDFS {
    fn from_reflect(reflect: &dyn Reflect) -> Option<Self> {
        let s = reflect.as_struct()?;
        let _ = s;
        Some(Self {
            a: FromReflect::from_reflect(s.field("a")?)?,
            h: Hid::default(),
            b: FromReflect::from_reflect(s.field("b")?)?,
            c: FromReflect::from_reflect(s.field("c")?)?,
            e: FromReflect::from_reflect(s.field("e")?)?,
        })
    }
}
#[allow(unused_variables, unused_mut, clippy::all)]
impl Modeled for OptDFS {
    fn t() -> T {
        T::Struct { name: std::any::type_name::<Self>(), fields: vec![FieldT { name: Some("a"), ty: <i32 as Modeled>::t, with: None, meta: vec![], docs: vec![] }, FieldT { name: Some("b"), ty: <Vec<u8> as Modeled>::t, with: None, meta: vec![], docs: vec![] }, FieldT { name: Some("c"), ty: <NonZeroU8 as Modeled>::t, with: None, meta: vec![], docs: vec![] }, FieldT { name: Some("e"), ty: <[u8; 2] as Modeled>::t, with: None, meta: vec![], docs: vec![] }], meta: vec![], docs: vec![] }
    }
    fn m(&self) -> M {
        M::Struct(vec![("a".to_owned(), self.a.m()), ("b".to_owned(), self.b.m()), ("c".to_owned(), self.c.m()), ("e".to_owned(), self.e.m())])
    }
    fn hidden(&self) -> Vec<u8> {
        vec![self.h.0]
    }
    fn vals(n: usize, d: usize) -> Vec<Self> {
        let l0 = <i32 as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); let l2 = <Vec<u8> as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); let l3 = <NonZeroU8 as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); let l4 = <[u8; 2] as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); combos(&[l0.len(), l2.len(), l3.len(), l4.len()], n.max(1)).into_iter().map(|c: Vec<usize>| Self { a: l0[c[0]].dup(), h: Hid(2), b: l2[c[1]].dup(), c: l3[c[2]].dup(), e: l4[c[3]].dup() }).collect::<Vec<Self>>()
    }
    fn into_v(self) -> Option<Value> { Some(self.into()) }
    fn dup(&self) -> Self {
        Self { a: self.a.dup(), h: Hid(self.h.0), b: self.b.dup(), c: self.c.dup(), e: self.e.dup() }
    }
    fn dfmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.debug_struct(std::any::type_name::<Self>()).field("a", &Dbg(&self.a)).field("b", &Dbg(&self.b)).field("c", &Dbg(&self.c)).field("e", &Dbg(&self.e)).finish()
    }
}

#[allow(dead_code)]
#[derive(Reflect, Clone)]
#[reflect(opt_out(Debug, FromReflect))]
pub struct OptDFT(
    #[reflect(skip)] pub Hid,
    pub String,
    pub Option<u8>,
    pub NonZeroU8,
);
impl FromReflect for OptDFT {
    fn from_reflect(reflect: &dyn Reflect) -> Option<Self> {
        let s = reflect.as_tuple_struct()?;
        let _ = s;
        Some(Self(Hid::default(), FromReflect::from_reflect(s.field_at(0)?)?, FromReflect::from_reflect(s.field_at(1)?)?, FromReflect::from_reflect(s.field_at(2)?)?))
    }
}
#[allow(unused_variables, unused_mut, clippy::all)]
impl Modeled for OptDFT {
    fn t() -> T {
        T::TupleStruct { name: std::any::type_name::<Self>(), fields: vec![FieldT { name: None, ty: <String as Modeled>::t, with: None, meta: vec![], docs: vec![] }, FieldT { name: None, ty: <Option<u8> as Modeled>::t, with: None, meta: vec![], docs: vec![] }, FieldT { name: None, ty: <NonZeroU8 as Modeled>::t, with: None, meta: vec![], docs: vec![] }], meta: vec![], docs: vec![] }
    }
    fn m(&self) -> M {
        M::TupleStruct(vec![self.1.m(), self.2.m(), self.3.m()])
    }
    fn hidden(&self) -> Vec<u8> {
        vec![self.0.0]
    }
    fn vals(n: usize, d: usize) -> Vec<Self> {
        let l1 = <String as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); let l2 = <Option<u8> as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); let l3 = <NonZeroU8 as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); combos(&[l1.len(), l2.len(), l3.len()], n.max(1)).into_iter().map(|c: Vec<usize>| Self(Hid(1), l1[c[0]].dup(), l2[c[1]].dup(), l3[c[2]].dup())).collect::<Vec<Self>>()
    }
    fn into_v(self) -> Option<Value> { Some(self.into()) }
    fn dup(&self) -> Self {
        Self(Hid(self.0.0), self.1.dup(), self.2.dup(), self.3.dup())
    }
    fn dfmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.debug_tuple(std::any::type_name::<Self>()).field(&Dbg(&self.1)).field(&Dbg(&self.2)).field(&Dbg(&self.3)).finish()
    }
}

#[allow(dead_code)]
#[derive(Reflect, Clone)]
#[reflect(opt_out(Debug, FromReflect))]
pub enum OptDFE {
    A,
    B(
        #[reflect(skip)] Hid,
        i32,
        [u8; 2],
    ),
    C {
        #[reflect(skip)] h: Hid,
        x: NonZeroU8,
        y: Vec<u8>,
    },
}
impl FromReflect for OptDFE {
    fn from_reflect(reflect: &dyn Reflect) -> Option<Self> {
        let e = reflect.as_enum()?;
        match e.variant_name() {
            "A" => Some(Self::A),
            "B" => Some(Self::B(Hid::default(), FromReflect::from_reflect(e.field_at(0)?)?, FromReflect::from_reflect(e.field_at(1)?)?)),
            "C" => Some(Self::C { h: Hid::default(), x: FromReflect::from_reflect(e.field("x")?)?, y: FromReflect::from_reflect(e.field("y")?)? }),
            _ => None,
        }
    }
}
#[allow(unused_variables, unused_mut, clippy::all)]
impl Modeled for OptDFE {
    fn t() -> T {
        T::Enum { name: std::any::type_name::<Self>(), variants: vec![VariantT { name: "A", kind: VK::Unit, fields: vec![], meta: vec![], docs: vec![] }, VariantT { name: "B", kind: VK::Tuple, fields: vec![FieldT { name: None, ty: <i32 as Modeled>::t, with: None, meta: vec![], docs: vec![] }, FieldT { name: None, ty: <[u8; 2] as Modeled>::t, with: None, meta: vec![], docs: vec![] }], meta: vec![], docs: vec![] }, VariantT { name: "C", kind: VK::Struct, fields: vec![FieldT { name: Some("x"), ty: <NonZeroU8 as Modeled>::t, with: None, meta: vec![], docs: vec![] }, FieldT { name: Some("y"), ty: <Vec<u8> as Modeled>::t, with: None, meta: vec![], docs: vec![] }], meta: vec![], docs: vec![] }], skipped: vec![], meta: vec![], docs: vec![] }
    }
    fn m(&self) -> M {
        match self {
            Self::A => M::Enum("A".into(), VK::Unit, vec![]),
            Self::B(x0, x1, x2) => M::Enum("B".into(), VK::Tuple, vec![(None, x1.m()), (None, x2.m())]),
            Self::C { h: x0, x: x1, y: x2 } => M::Enum("C".into(), VK::Struct, vec![(Some("x".into()), x1.m()), (Some("y".into()), x2.m())]),
        }
    }
    fn hidden(&self) -> Vec<u8> {
        match self {
            Self::B(x0, x1, x2) => vec![x0.0],
            Self::C { h: x0, x: x1, y: x2 } => vec![x0.0],
            _ => vec![],
        }
    }
    fn vals(n: usize, d: usize) -> Vec<Self> {
        let mut per: Vec<Vec<Self>> = vec![];
        per.push(vec![Self::A]);
        per.push({ let l1 = <i32 as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); let l2 = <[u8; 2] as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); combos(&[l1.len(), l2.len()], n.max(1)).into_iter().map(|c: Vec<usize>| Self::B(Hid(1), l1[c[0]].dup(), l2[c[1]].dup())).collect::<Vec<Self>>() });
        per.push({ let l1 = <NonZeroU8 as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); let l2 = <Vec<u8> as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); combos(&[l1.len(), l2.len()], n.max(1)).into_iter().map(|c: Vec<usize>| Self::C { h: Hid(1), x: l1[c[0]].dup(), y: l2[c[1]].dup() }).collect::<Vec<Self>>() });
        interleave(per, n)
    }
    fn into_v(self) -> Option<Value> { Some(self.into()) }
    fn dup(&self) -> Self {
        match self {
            Self::A => Self::A,
            Self::B(x0, x1, x2) => Self::B(Hid(x0.0), x1.dup(), x2.dup()),
            Self::C { h: x0, x: x1, y: x2 } => Self::C { h: Hid(x0.0), x: x1.dup(), y: x2.dup() },
        }
    }
    fn dfmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        match self {
            Self::A => f.write_str("A"),
            Self::B(x0, x1, x2) => f.debug_tuple("B").field(&Dbg(x1)).field(&Dbg(x2)).finish(),
            Self::C { h: x0, x: x1, y: x2 } => f.debug_struct("C").field("x", &Dbg(x1)).field("y", &Dbg(x2)).finish(),
        }
    }
}

#[allow(dead_code)]
#[derive(Reflect, Debug)]
#[reflect(opt_out(Clone, FromReflect))]
pub struct OptCFS {
    pub a: i32,
    #[reflect(skip)] pub h: Hid,
    pub b: Vec<u8>,
    pub c: NonZeroU8,
    pub e: [u8; 2],
}
impl FromReflect for OptCFS {
    fn from_reflect(reflect: &dyn Reflect) -> Option<Self> {
        let s = reflect.as_struct()?;
        let _ = s;
        Some(Self {
            a: FromReflect::from_reflect(s.field("a")?)?,
            h: Hid::default(),
            b: FromReflect::from_reflect(s.field("b")?)?,
            c: FromReflect::from_reflect(s.field("c")?)?,
            e: FromReflect::from_reflect(s.field("e")?)?,
        })
    }
}
#[allow(unused_variables, unused_mut, clippy::all)]
impl Modeled for OptCFS {
    fn t() -> T {
        T::Struct { name: std::any::type_name::<Self>(), fields: vec![FieldT { name: Some("a"), ty: <i32 as Modeled>::t, with: None, meta: vec![], docs: vec![] }, FieldT { name: Some("b"), ty: <Vec<u8> as Modeled>::t, with: None, meta: vec![], docs: vec![] }, FieldT { name: Some("c"), ty: <NonZeroU8 as Modeled>::t, with: None, meta: vec![], docs: vec![] }, FieldT { name: Some("e"), ty: <[u8; 2] as Modeled>::t, with: None, meta: vec![], docs: vec![] }], meta: vec![], docs: vec![] }
    }
    fn m(&self) -> M {
        M::Struct(vec![("a".to_owned(), self.a.m()), ("b".to_owned(), self.b.m()), ("c".to_owned(), self.c.m()), ("e".to_owned(), self.e.m())])
    }
    fn hidden(&self) -> Vec<u8> {
        vec![self.h.0]
    }
    fn vals(n: usize, d: usize) -> Vec<Self> {
        let l0 = <i32 as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); let l2 = <Vec<u8> as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); let l3 = <NonZeroU8 as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); let l4 = <[u8; 2] as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); combos(&[l0.len(), l2.len(), l3.len(), l4.len()], n.max(1)).into_iter().map(|c: Vec<usize>| Self { a: l0[c[0]].dup(), h: Hid(2), b: l2[c[1]].dup(), c: l3[c[2]].dup(), e: l4[c[3]].dup() }).collect::<Vec<Self>>()
    }
    fn into_v(self) -> Option<Value> { Some(self.into()) }
    fn dup(&self) -> Self {
        Self { a: self.a.dup(), h: Hid(self.h.0), b: self.b.dup(), c: self.c.dup(), e: self.e.dup() }
    }
    fn dfmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        std::fmt::Debug::fmt(self, f)
    }
}

#[allow(dead_code)]
#[derive(Reflect, Debug)]
#[reflect(opt_out(Clone, FromReflect))]
pub struct OptCFT(
    #[reflect(skip)] pub Hid,
    pub String,
    pub Option<u8>,
    pub NonZeroU8,
);
impl FromReflect for OptCFT {
    fn from_reflect(reflect: &dyn Reflect) -> Option<Self> {
        let s = reflect.as_tuple_struct()?;
        let _ = s;
        Some(Self(Hid::default(), FromReflect::from_reflect(s.field_at(0)?)?, FromReflect::from_reflect(s.field_at(1)?)?, FromReflect::from_reflect(s.field_at(2)?)?))
    }
}
#[allow(unused_variables, unused_mut, clippy::all)]
impl Modeled for OptCFT {
    fn t() -> T {
        T::TupleStruct { name: std::any::type_name::<Self>(), fields: vec![FieldT { name: None, ty: <String as Modeled>::t, with: None, meta: vec![], docs: vec![] }, FieldT { name: None, ty: <Option<u8> as Modeled>::t, with: None, meta: vec![], docs: vec![] }, FieldT { name: None, ty: <NonZeroU8 as Modeled>::t, with: None, meta: vec![], docs: vec![] }], meta: vec![], docs: vec![] }
    }
    fn m(&self) -> M {
        M::TupleStruct(vec![self.1.m(), self.2.m(), self.3.m()])
    }
    fn hidden(&self) -> Vec<u8> {
        vec![self.0.0]
    }
    fn vals(n: usize, d: usize) -> Vec<Self> {
        let l1 = <String as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); let l2 = <Option<u8> as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); let l3 = <NonZeroU8 as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); combos(&[l1.len(), l2.len(), l3.len()], n.max(1)).into_iter().map(|c: Vec<usize>| Self(Hid(1), l1[c[0]].dup(), l2[c[1]].dup(), l3[c[2]].dup())).collect::<Vec<Self>>()
    }
    fn into_v(self) -> Option<Value> { Some(self.into()) }
    fn dup(&self) -> Self {
        Self(Hid(self.0.0), self.1.dup(), self.2.dup(), self.3.dup())
    }
    fn dfmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        std::fmt::Debug::fmt(self, f)
    }
}

#[allow(dead_code)]
#[derive(Reflect, Debug)]
#[reflect(opt_out(Clone, FromReflect))]
pub enum OptCFE {
    A,
    B(
        #[reflect(skip)] Hid,
        i32,
        [u8; 2],
    ),
    C {
        #[reflect(skip)] h: Hid,
        x: NonZeroU8,
        y: Vec<u8>,
    },
}
impl FromReflect for OptCFE {
    fn from_reflect(reflect: &dyn Reflect) -> Option<Self> {
        let e = reflect.as_enum()?;
        match e.variant_name() {
            "A" => Some(Self::A),
            "B" => Some(Self::B(Hid::default(), FromReflect::from_reflect(e.field_at(0)?)?, FromReflect::from_reflect(e.field_at(1)?)?)),
            "C" => Some(Self::C { h: Hid::default(), x: FromReflect::from_reflect(e.field("x")?)?, y: FromReflect::from_reflect(e.field("y")?)? }),
            _ => None,
        }
    }
}
#[allow(unused_variables, unused_mut, clippy::all)]
impl Modeled for OptCFE {
    fn t() -> T {
        T::Enum { name: std::any::type_name::<Self>(), variants: vec![VariantT { name: "A", kind: VK::Unit, fields: vec![], meta: vec![], docs: vec![] }, VariantT { name: "B", kind: VK::Tuple, fields: vec![FieldT { name: None, ty: <i32 as Modeled>::t, with: None, meta: vec![], docs: vec![] }, FieldT { name: None, ty: <[u8; 2] as Modeled>::t, with: None, meta: vec![], docs: vec![] }], meta: vec![], docs: vec![] }, VariantT { name: "C", kind: VK::Struct, fields: vec![FieldT { name: Some("x"), ty: <NonZeroU8 as Modeled>::t, with: None, meta: vec![], docs: vec![] }, FieldT { name: Some("y"), ty: <Vec<u8> as Modeled>::t, with: None, meta: vec![], docs: vec![] }], meta: vec![], docs: vec![] }], skipped: vec![], meta: vec![], docs: vec![] }
    }
    fn m(&self) -> M {
        match self {
            Self::A => M::Enum("A".into(), VK::Unit, vec![]),
            Self::B(x0, x1, x2) => M::Enum("B".into(), VK::Tuple, vec![(None, x1.m()), (None, x2.m())]),
            Self::C { h: x0, x: x1, y: x2 } => M::Enum("C".into(), VK::Struct, vec![(Some("x".into()), x1.m()), (Some("y".into()), x2.m())]),
        }
    }
    fn hidden(&self) -> Vec<u8> {
        match self {
            Self::B(x0, x1, x2) => vec![x0.0],
            Self::C { h: x0, x: x1, y: x2 } => vec![x0.0],
            _ => vec![],
        }
    }
    fn vals(n: usize, d: usize) -> Vec<Self> {
        let mut per: Vec<Vec<Self>> = vec![];
        per.push(vec![Self::A]);
        per.push({ let l1 = <i32 as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); let l2 = <[u8; 2] as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); combos(&[l1.len(), l2.len()], n.max(1)).into_iter().map(|c: Vec<usize>| Self::B(Hid(1), l1[c[0]].dup(), l2[c[1]].dup())).collect::<Vec<Self>>() });
        per.push({ let l1 = <NonZeroU8 as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); let l2 = <Vec<u8> as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); combos(&[l1.len(), l2.len()], n.max(1)).into_iter().map(|c: Vec<usize>| Self::C { h: Hid(1), x: l1[c[0]].dup(), y: l2[c[1]].dup() }).collect::<Vec<Self>>() });
        interleave(per, n)
    }
    fn into_v(self) -> Option<Value> { Some(self.into()) }
    fn dup(&self) -> Self {
        match self {
            Self::A => Self::A,
            Self::B(x0, x1, x2) => Self::B(Hid(x0.0), x1.dup(), x2.dup()),
            Self::C { h: x0, x: x1, y: x2 } => Self::C { h: Hid(x0.0), x: x1.dup(), y: x2.dup() },
        }
    }
    fn dfmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        std::fmt::Debug::fmt(self, f)
    }
}

#[allow(dead_code)]
#[derive(Reflect)]
#[reflect(opt_out(Debug, Clone, FromReflect))]
pub struct OptDCFS {
    pub a: i32,
    #[reflect(skip)] pub h: Hid,
    pub b: Vec<u8>,
    pub c: NonZeroU8,
    pub e: [u8; 2],
}
impl FromReflect for OptDCFS {
    fn from_reflect(reflect: &dyn Reflect) -> Option<Self> {
        let s = reflect.as_struct()?;
        let _ = s;
        Some(Self {
            a: FromReflect::from_reflect(s.field("a")?)?,
            h: Hid::default(),
            b: FromReflect::from_reflect(s.field("b")?)?,
            c: FromReflect::from_reflect(s.field("c")?)?,
            e: FromReflect::from_reflect(s.field("e")?)?,
        })
    }
}
#[allow(unused_variables, unused_mut, clippy::all)]
impl Modeled for OptDCFS {
    fn t() -> T {
        T::Struct { name: std::any::type_name::<Self>(), fields: vec![FieldT { name: Some("a"), ty: <i32 as Modeled>::t, with: None, meta: vec![], docs: vec![] }, FieldT { name: Some("b"), ty: <Vec<u8> as Modeled>::t, with: None, meta: vec![], docs: vec![] }, FieldT { name: Some("c"), ty: <NonZeroU8 as Modeled>::t, with: None, meta: vec![], docs: vec![] }, FieldT { name: Some("e"), ty: <[u8; 2] as Modeled>::t, with: None, meta: vec![], docs: vec![] }], meta: vec![], docs: vec![] }
    }
    fn m(&self) -> M {
        M::Struct(vec![("a".to_owned(), self.a.m()), ("b".to_owned(), self.b.m()), ("c".to_owned(), self.c.m()), ("e".to_owned(), self.e.m())])
    }
    fn hidden(&self) -> Vec<u8> {
        vec![self.h.0]
    }
    fn vals(n: usize, d: usize) -> Vec<Self> {
        let l0 = <i32 as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); let l2 = <Vec<u8> as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); let l3 = <NonZeroU8 as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); let l4 = <[u8; 2] as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); combos(&[l0.len(), l2.len(), l3.len(), l4.len()], n.max(1)).into_iter().map(|c: Vec<usize>| Self { a: l0[c[0]].dup(), h: Hid(2), b: l2[c[1]].dup(), c: l3[c[2]].dup(), e: l4[c[3]].dup() }).collect::<Vec<Self>>()
    }
    fn into_v(self) -> Option<Value> { Some(self.into()) }
    fn dup(&self) -> Self {
        Self { a: self.a.dup(), h: Hid(self.h.0), b: self.b.dup(), c: self.c.dup(), e: self.e.dup() }
    }
    fn dfmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.debug_struct(std::any::type_name::<Self>()).field("a", &Dbg(&self.a)).field("b", &Dbg(&self.b)).field("c", &Dbg(&self.c)).field("e", &Dbg(&self.e)).finish()
    }
}

#[allow(dead_code)]
#[derive(Reflect)]
#[reflect(opt_out(Debug, Clone, FromReflect))]
pub struct OptDCFT(
    #[reflect(skip)] pub Hid,
    pub String,
    pub Option<u8>,
    pub NonZeroU8,
);
impl FromReflect for OptDCFT {
    fn from_reflect(reflect: &dyn Reflect) -> Option<Self> {
        let s = reflect.as_tuple_struct()?;
        let _ = s;
        Some(Self(Hid::default(), FromReflect::from_reflect(s.field_at(0)?)?, FromReflect::from_reflect(s.field_at(1)?)?, FromReflect::from_reflect(s.field_at(2)?)?))
    }
}
#[allow(unused_variables, unused_mut, clippy::all)]
impl Modeled for OptDCFT {
    fn t() -> T {
        T::TupleStruct { name: std::any::type_name::<Self>(), fields: vec![FieldT { name: None, ty: <String as Modeled>::t, with: None, meta: vec![], docs: vec![] }, FieldT { name: None, ty: <Option<u8> as Modeled>::t, with: None, meta: vec![], docs: vec![] }, FieldT { name: None, ty: <NonZeroU8 as Modeled>::t, with: None, meta: vec![], docs: vec![] }], meta: vec![], docs: vec![] }
    }
    fn m(&self) -> M {
        M::TupleStruct(vec![self.1.m(), self.2.m(), self.3.m()])
    }
    fn hidden(&self) -> Vec<u8> {
        vec![self.0.0]
    }
    fn vals(n: usize, d: usize) -> Vec<Self> {
        let l1 = <String as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); let l2 = <Option<u8> as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); let l3 = <NonZeroU8 as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); combos(&[l1.len(), l2.len(), l3.len()], n.max(1)).into_iter().map(|c: Vec<usize>| Self(Hid(1), l1[c[0]].dup(), l2[c[1]].dup(), l3[c[2]].dup())).collect::<Vec<Self>>()
    }
    fn into_v(self) -> Option<Value> { Some(self.into()) }
    fn dup(&self) -> Self {
        Self(Hid(self.0.0), self.1.dup(), self.2.dup(), self.3.dup())
    }
    fn dfmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.debug_tuple(std::any::type_name::<Self>()).field(&Dbg(&self.1)).field(&Dbg(&self.2)).field(&Dbg(&self.3)).finish()
    }
}

#[allow(dead_code)]
#[derive(Reflect)]
#[reflect(opt_out(Debug, Clone, FromReflect))]
pub enum OptDCFE {
    A,
    B(
        #[reflect(skip)] Hid,
        i32,
        [u8; 2],
    ),
    C {
        #[reflect(skip)] h: Hid,
        x: NonZeroU8,
        y: Vec<u8>,
    },
}
impl FromReflect for OptDCFE {
    fn from_reflect(reflect: &dyn Reflect) -> Option<Self> {
        let e = reflect.as_enum()?;
        match e.variant_name() {
            "A" => Some(Self::A),
            "B" => Some(Self::B(Hid::default(), FromReflect::from_reflect(e.field_at(0)?)?, FromReflect::from_reflect(e.field_at(1)?)?)),
            "C" => Some(Self::C { h: Hid::default(), x: FromReflect::from_reflect(e.field("x")?)?, y: FromReflect::from_reflect(e.field("y")?)? }),
            _ => None,
        }
    }
}
#[allow(unused_variables, unused_mut, clippy::all)]
impl Modeled for OptDCFE {
    fn t() -> T {
        T::Enum { name: std::any::type_name::<Self>(), variants: vec![VariantT { name: "A", kind: VK::Unit, fields: vec![], meta: vec![], docs: vec![] }, VariantT { name: "B", kind: VK::Tuple, fields: vec![FieldT { name: None, ty: <i32 as Modeled>::t, with: None, meta: vec![], docs: vec![] }, FieldT { name: None, ty: <[u8; 2] as Modeled>::t, with: None, meta: vec![], docs: vec![] }], meta: vec![], docs: vec![] }, VariantT { name: "C", kind: VK::Struct, fields: vec![FieldT { name: Some("x"), ty: <NonZeroU8 as Modeled>::t, with: None, meta: vec![], docs: vec![] }, FieldT { name: Some("y"), ty: <Vec<u8> as Modeled>::t, with: None, meta: vec![], docs: vec![] }], meta: vec![], docs: vec![] }], skipped: vec![], meta: vec![], docs: vec![] }
    }
    fn m(&self) -> M {
        match self {
            Self::A => M::Enum("A".into(), VK::Unit, vec![]),
            Self::B(x0, x1, x2) => M::Enum("B".into(), VK::Tuple, vec![(None, x1.m()), (None, x2.m())]),
            Self::C { h: x0, x: x1, y: x2 } => M::Enum("C".into(), VK::Struct, vec![(Some("x".into()), x1.m()), (Some("y".into()), x2.m())]),
        }
    }
    fn hidden(&self) -> Vec<u8> {
        match self {
            Self::B(x0, x1, x2) => vec![x0.0],
            Self::C { h: x0, x: x1, y: x2 } => vec![x0.0],
            _ => vec![],
        }
    }
    fn vals(n: usize, d: usize) -> Vec<Self> {
        let mut per: Vec<Vec<Self>> = vec![];
        per.push(vec![Self::A]);
        per.push({ let l1 = <i32 as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); let l2 = <[u8; 2] as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); combos(&[l1.len(), l2.len()], n.max(1)).into_iter().map(|c: Vec<usize>| Self::B(Hid(1), l1[c[0]].dup(), l2[c[1]].dup())).collect::<Vec<Self>>() });
        per.push({ let l1 = <NonZeroU8 as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); let l2 = <Vec<u8> as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); combos(&[l1.len(), l2.len()], n.max(1)).into_iter().map(|c: Vec<usize>| Self::C { h: Hid(1), x: l1[c[0]].dup(), y: l2[c[1]].dup() }).collect::<Vec<Self>>() });
        interleave(per, n)
    }
    fn into_v(self) -> Option<Value> { Some(self.into()) }
    fn dup(&self) -> Self {
        match self {
            Self::A => Self::A,
            Self::B(x0, x1, x2) => Self::B(Hid(x0.0), x1.dup(), x2.dup()),
            Self::C { h: x0, x: x1, y: x2 } => Self::C { h: Hid(x0.0), x: x1.dup(), y: x2.dup() },
        }
    }
    fn dfmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        match self {
            Self::A => f.write_str("A"),
            Self::B(x0, x1, x2) => f.debug_tuple("B").field(&Dbg(x1)).field(&Dbg(x2)).finish(),
            Self::C { h: x0, x: x1, y: x2 } => f.debug_struct("C").field("x", &Dbg(x1)).field("y", &Dbg(x2)).finish(),
        }
    }
}

#[allow(dead_code)]
#[derive(Reflect)]
#[reflect(opt_out(Debug, Clone))]
pub struct OptUnit;
#[allow(unused_variables, unused_mut, clippy::all)]
impl Modeled for OptUnit {
    fn t() -> T {
        T::Struct { name: std::any::type_name::<Self>(), fields: vec![], meta: vec![], docs: vec![] }
    }
    fn m(&self) -> M {
        M::Struct(vec![])
    }
    fn hidden(&self) -> Vec<u8> {
        vec![]
    }
    fn vals(n: usize, d: usize) -> Vec<Self> {
        vec![Self]
    }
    fn into_v(self) -> Option<Value> { Some(self.into()) }
    fn dup(&self) -> Self {
        Self
    }
    fn dfmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.debug_struct(std::any::type_name::<Self>()).finish()
    }
}

#[allow(dead_code)]
#[derive(Reflect, Debug)]
#[reflect(opt_out(Clone))]
pub struct HoldsOpt {
    pub a: OptCS,
    pub b: Vec<OptCE>,
    pub c: Option<OptCT>,
}
#[allow(unused_variables, unused_mut, clippy::all)]
impl Modeled for HoldsOpt {
    fn t() -> T {
        T::Struct { name: std::any::type_name::<Self>(), fields: vec![FieldT { name: Some("a"), ty: <OptCS as Modeled>::t, with: None, meta: vec![], docs: vec![] }, FieldT { name: Some("b"), ty: <Vec<OptCE> as Modeled>::t, with: None, meta: vec![], docs: vec![] }, FieldT { name: Some("c"), ty: <Option<OptCT> as Modeled>::t, with: None, meta: vec![], docs: vec![] }], meta: vec![], docs: vec![] }
    }
    fn m(&self) -> M {
        M::Struct(vec![("a".to_owned(), self.a.m()), ("b".to_owned(), self.b.m()), ("c".to_owned(), self.c.m())])
    }
    fn hidden(&self) -> Vec<u8> {
        vec![]
    }
    fn vals(n: usize, d: usize) -> Vec<Self> {
        let l0 = <OptCS as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); let l1 = <Vec<OptCE> as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); let l2 = <Option<OptCT> as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); combos(&[l0.len(), l1.len(), l2.len()], n.max(1)).into_iter().map(|c: Vec<usize>| Self { a: l0[c[0]].dup(), b: l1[c[1]].dup(), c: l2[c[2]].dup() }).collect::<Vec<Self>>()
    }
    fn into_v(self) -> Option<Value> { Some(self.into()) }
    fn dup(&self) -> Self {
        Self { a: self.a.dup(), b: self.b.dup(), c: self.c.dup() }
    }
    fn dfmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        std::fmt::Debug::fmt(self, f)
    }
}

#[allow(dead_code)]
#[derive(Reflect, Clone)]
#[reflect(opt_out(Debug))]
pub struct HoldsOptD {
    pub a: OptDS,
    pub b: Vec<OptDE>,
    pub c: Option<OptDT>,
}
#[allow(unused_variables, unused_mut, clippy::all)]
impl Modeled for HoldsOptD {
    fn t() -> T {
        T::Struct { name: std::any::type_name::<Self>(), fields: vec![FieldT { name: Some("a"), ty: <OptDS as Modeled>::t, with: None, meta: vec![], docs: vec![] }, FieldT { name: Some("b"), ty: <Vec<OptDE> as Modeled>::t, with: None, meta: vec![], docs: vec![] }, FieldT { name: Some("c"), ty: <Option<OptDT> as Modeled>::t, with: None, meta: vec![], docs: vec![] }], meta: vec![], docs: vec![] }
    }
    fn m(&self) -> M {
        M::Struct(vec![("a".to_owned(), self.a.m()), ("b".to_owned(), self.b.m()), ("c".to_owned(), self.c.m())])
    }
    fn hidden(&self) -> Vec<u8> {
        vec![]
    }
    fn vals(n: usize, d: usize) -> Vec<Self> {
        let l0 = <OptDS as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); let l1 = <Vec<OptDE> as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); let l2 = <Option<OptDT> as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); combos(&[l0.len(), l1.len(), l2.len()], n.max(1)).into_iter().map(|c: Vec<usize>| Self { a: l0[c[0]].dup(), b: l1[c[1]].dup(), c: l2[c[2]].dup() }).collect::<Vec<Self>>()
    }
    fn into_v(self) -> Option<Value> { Some(self.into()) }
    fn dup(&self) -> Self {
        Self { a: self.a.dup(), b: self.b.dup(), c: self.c.dup() }
    }
    fn dfmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.debug_struct(std::any::type_name::<Self>()).field("a", &Dbg(&self.a)).field("b", &Dbg(&self.b)).field("c", &Dbg(&self.c)).finish()
    }
}

#[allow(dead_code)]
#[derive(Reflect, Clone, Debug)]
pub struct With0S {
    #[reflect(from_reflect_with(rd_i32))] pub a: i32,
    pub b: String,
    pub c: Vec<u8>,
}
#[allow(unused_variables, unused_mut, clippy::all)]
impl Modeled for With0S {
    fn t() -> T {
        T::Struct { name: std::any::type_name::<Self>(), fields: vec![FieldT { name: Some("a"), ty: <i32 as Modeled>::t, with: Some(rd_i32_m), meta: vec![], docs: vec![] }, FieldT { name: Some("b"), ty: <String as Modeled>::t, with: None, meta: vec![], docs: vec![] }, FieldT { name: Some("c"), ty: <Vec<u8> as Modeled>::t, with: None, meta: vec![], docs: vec![] }], meta: vec![], docs: vec![] }
    }
    fn m(&self) -> M {
        M::Struct(vec![("a".to_owned(), self.a.m()), ("b".to_owned(), self.b.m()), ("c".to_owned(), self.c.m())])
    }
    fn hidden(&self) -> Vec<u8> {
        vec![]
    }
    fn vals(n: usize, d: usize) -> Vec<Self> {
        let l0 = <i32 as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); let l1 = <String as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); let l2 = <Vec<u8> as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); combos(&[l0.len(), l1.len(), l2.len()], n.max(1)).into_iter().map(|c: Vec<usize>| Self { a: l0[c[0]].dup(), b: l1[c[1]].dup(), c: l2[c[2]].dup() }).collect::<Vec<Self>>()
    }
    fn into_v(self) -> Option<Value> { Some(self.into()) }
    fn dup(&self) -> Self {
        Self { a: self.a.dup(), b: self.b.dup(), c: self.c.dup() }
    }
    fn dfmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        std::fmt::Debug::fmt(self, f)
    }
}

#[allow(dead_code)]
#[derive(Reflect, Clone, Debug)]
pub struct With0T(
    #[reflect(from_reflect_with(rd_i32))] pub i32,
    pub String,
    pub Vec<u8>,
);
#[allow(unused_variables, unused_mut, clippy::all)]
impl Modeled for With0T {
    fn t() -> T {
        T::TupleStruct { name: std::any::type_name::<Self>(), fields: vec![FieldT { name: None, ty: <i32 as Modeled>::t, with: Some(rd_i32_m), meta: vec![], docs: vec![] }, FieldT { name: None, ty: <String as Modeled>::t, with: None, meta: vec![], docs: vec![] }, FieldT { name: None, ty: <Vec<u8> as Modeled>::t, with: None, meta: vec![], docs: vec![] }], meta: vec![], docs: vec![] }
    }
    fn m(&self) -> M {
        M::TupleStruct(vec![self.0.m(), self.1.m(), self.2.m()])
    }
    fn hidden(&self) -> Vec<u8> {
        vec![]
    }
    fn vals(n: usize, d: usize) -> Vec<Self> {
        let l0 = <i32 as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); let l1 = <String as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); let l2 = <Vec<u8> as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); combos(&[l0.len(), l1.len(), l2.len()], n.max(1)).into_iter().map(|c: Vec<usize>| Self(l0[c[0]].dup(), l1[c[1]].dup(), l2[c[2]].dup())).collect::<Vec<Self>>()
    }
    fn into_v(self) -> Option<Value> { Some(self.into()) }
    fn dup(&self) -> Self {
        Self(self.0.dup(), self.1.dup(), self.2.dup())
    }
    fn dfmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        std::fmt::Debug::fmt(self, f)
    }
}

#[allow(dead_code)]
#[derive(Reflect, Clone, Debug)]
pub enum With0E {
    A {
        #[reflect(from_reflect_with(rd_i32))] a: i32,
        b: String,
        c: Vec<u8>,
    },
    B(
        #[reflect(from_reflect_with(rd_i32))] i32,
        String,
        Vec<u8>,
    ),
    C,
}
#[allow(unused_variables, unused_mut, clippy::all)]
impl Modeled for With0E {
    fn t() -> T {
        T::Enum { name: std::any::type_name::<Self>(), variants: vec![VariantT { name: "A", kind: VK::Struct, fields: vec![FieldT { name: Some("a"), ty: <i32 as Modeled>::t, with: Some(rd_i32_m), meta: vec![], docs: vec![] }, FieldT { name: Some("b"), ty: <String as Modeled>::t, with: None, meta: vec![], docs: vec![] }, FieldT { name: Some("c"), ty: <Vec<u8> as Modeled>::t, with: None, meta: vec![], docs: vec![] }], meta: vec![], docs: vec![] }, VariantT { name: "B", kind: VK::Tuple, fields: vec![FieldT { name: None, ty: <i32 as Modeled>::t, with: Some(rd_i32_m), meta: vec![], docs: vec![] }, FieldT { name: None, ty: <String as Modeled>::t, with: None, meta: vec![], docs: vec![] }, FieldT { name: None, ty: <Vec<u8> as Modeled>::t, with: None, meta: vec![], docs: vec![] }], meta: vec![], docs: vec![] }, VariantT { name: "C", kind: VK::Unit, fields: vec![], meta: vec![], docs: vec![] }], skipped: vec![], meta: vec![], docs: vec![] }
    }
    fn m(&self) -> M {
        match self {
            Self::A { a: x0, b: x1, c: x2 } => M::Enum("A".into(), VK::Struct, vec![(Some("a".into()), x0.m()), (Some("b".into()), x1.m()), (Some("c".into()), x2.m())]),
            Self::B(x0, x1, x2) => M::Enum("B".into(), VK::Tuple, vec![(None, x0.m()), (None, x1.m()), (None, x2.m())]),
            Self::C => M::Enum("C".into(), VK::Unit, vec![]),
        }
    }
    fn hidden(&self) -> Vec<u8> {
        match self {
            _ => vec![],
        }
    }
    fn vals(n: usize, d: usize) -> Vec<Self> {
        let mut per: Vec<Vec<Self>> = vec![];
        per.push({ let l0 = <i32 as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); let l1 = <String as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); let l2 = <Vec<u8> as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); combos(&[l0.len(), l1.len(), l2.len()], n.max(1)).into_iter().map(|c: Vec<usize>| Self::A { a: l0[c[0]].dup(), b: l1[c[1]].dup(), c: l2[c[2]].dup() }).collect::<Vec<Self>>() });
        per.push({ let l0 = <i32 as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); let l1 = <String as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); let l2 = <Vec<u8> as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); combos(&[l0.len(), l1.len(), l2.len()], n.max(1)).into_iter().map(|c: Vec<usize>| Self::B(l0[c[0]].dup(), l1[c[1]].dup(), l2[c[2]].dup())).collect::<Vec<Self>>() });
        per.push(vec![Self::C]);
        interleave(per, n)
    }
    fn into_v(self) -> Option<Value> { Some(self.into()) }
    fn dup(&self) -> Self {
        match self {
            Self::A { a: x0, b: x1, c: x2 } => Self::A { a: x0.dup(), b: x1.dup(), c: x2.dup() },
            Self::B(x0, x1, x2) => Self::B(x0.dup(), x1.dup(), x2.dup()),
            Self::C => Self::C,
        }
    }
    fn dfmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        std::fmt::Debug::fmt(self, f)
    }
}

#[allow(dead_code)]
#[derive(Reflect, Clone, Debug)]
pub struct With1S {
    pub a: i32,
    #[reflect(from_reflect_with(rd_str))] pub b: String,
    pub c: Vec<u8>,
}
#[allow(unused_variables, unused_mut, clippy::all)]
impl Modeled for With1S {
    fn t() -> T {
        T::Struct { name: std::any::type_name::<Self>(), fields: vec![FieldT { name: Some("a"), ty: <i32 as Modeled>::t, with: None, meta: vec![], docs: vec![] }, FieldT { name: Some("b"), ty: <String as Modeled>::t, with: Some(rd_str_m), meta: vec![], docs: vec![] }, FieldT { name: Some("c"), ty: <Vec<u8> as Modeled>::t, with: None, meta: vec![], docs: vec![] }], meta: vec![], docs: vec![] }
    }
    fn m(&self) -> M {
        M::Struct(vec![("a".to_owned(), self.a.m()), ("b".to_owned(), self.b.m()), ("c".to_owned(), self.c.m())])
    }
    fn hidden(&self) -> Vec<u8> {
        vec![]
    }
    fn vals(n: usize, d: usize) -> Vec<Self> {
        let l0 = <i32 as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); let l1 = <String as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); let l2 = <Vec<u8> as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); combos(&[l0.len(), l1.len(), l2.len()], n.max(1)).into_iter().map(|c: Vec<usize>| Self { a: l0[c[0]].dup(), b: l1[c[1]].dup(), c: l2[c[2]].dup() }).collect::<Vec<Self>>()
    }
    fn into_v(self) -> Option<Value> { Some(self.into()) }
    fn dup(&self) -> Self {
        Self { a: self.a.dup(), b: self.b.dup(), c: self.c.dup() }
    }
    fn dfmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        std::fmt::Debug::fmt(self, f)
    }
}

#[allow(dead_code)]
#[derive(Reflect, Clone, Debug)]
pub struct With1T(
    pub i32,
    #[reflect(from_reflect_with(rd_str))] pub String,
    pub Vec<u8>,
);
#[allow(unused_variables, unused_mut, clippy::all)]
impl Modeled for With1T {
    fn t() -> T {
        T::TupleStruct { name: std::any::type_name::<Self>(), fields: vec![FieldT { name: None, ty: <i32 as Modeled>::t, with: None, meta: vec![], docs: vec![] }, FieldT { name: None, ty: <String as Modeled>::t, with: Some(rd_str_m), meta: vec![], docs: vec![] }, FieldT { name: None, ty: <Vec<u8> as Modeled>::t, with: None, meta: vec![], docs: vec![] }], meta: vec![], docs: vec![] }
    }
    fn m(&self) -> M {
        M::TupleStruct(vec![self.0.m(), self.1.m(), self.2.m()])
    }
    fn hidden(&self) -> Vec<u8> {
        vec![]
    }
    fn vals(n: usize, d: usize) -> Vec<Self> {
        let l0 = <i32 as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); let l1 = <String as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); let l2 = <Vec<u8> as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); combos(&[l0.len(), l1.len(), l2.len()], n.max(1)).into_iter().map(|c: Vec<usize>| Self(l0[c[0]].dup(), l1[c[1]].dup(), l2[c[2]].dup())).collect::<Vec<Self>>()
    }
    fn into_v(self) -> Option<Value> { Some(self.into()) }
    fn dup(&self) -> Self {
        Self(self.0.dup(), self.1.dup(), self.2.dup())
    }
    fn dfmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        std::fmt::Debug::fmt(self, f)
    }
}

#[allow(dead_code)]
#[derive(Reflect, Clone, Debug)]
pub enum With1E {
    A {
        a: i32,
        #[reflect(from_reflect_with(rd_str))] b: String,
        c: Vec<u8>,
    },
    B(
        i32,
        #[reflect(from_reflect_with(rd_str))] String,
        Vec<u8>,
    ),
    C,
}
#[allow(unused_variables, unused_mut, clippy::all)]
impl Modeled for With1E {
    fn t() -> T {
        T::Enum { name: std::any::type_name::<Self>(), variants: vec![VariantT { name: "A", kind: VK::Struct, fields: vec![FieldT { name: Some("a"), ty: <i32 as Modeled>::t, with: None, meta: vec![], docs: vec![] }, FieldT { name: Some("b"), ty: <String as Modeled>::t, with: Some(rd_str_m), meta: vec![], docs: vec![] }, FieldT { name: Some("c"), ty: <Vec<u8> as Modeled>::t, with: None, meta: vec![], docs: vec![] }], meta: vec![], docs: vec![] }, VariantT { name: "B", kind: VK::Tuple, fields: vec![FieldT { name: None, ty: <i32 as Modeled>::t, with: None, meta: vec![], docs: vec![] }, FieldT { name: None, ty: <String as Modeled>::t, with: Some(rd_str_m), meta: vec![], docs: vec![] }, FieldT { name: None, ty: <Vec<u8> as Modeled>::t, with: None, meta: vec![], docs: vec![] }], meta: vec![], docs: vec![] }, VariantT { name: "C", kind: VK::Unit, fields: vec![], meta: vec![], docs: vec![] }], skipped: vec![], meta: vec![], docs: vec![] }
    }
    fn m(&self) -> M {
        match self {
            Self::A { a: x0, b: x1, c: x2 } => M::Enum("A".into(), VK::Struct, vec![(Some("a".into()), x0.m()), (Some("b".into()), x1.m()), (Some("c".into()), x2.m())]),
            Self::B(x0, x1, x2) => M::Enum("B".into(), VK::Tuple, vec![(None, x0.m()), (None, x1.m()), (None, x2.m())]),
            Self::C => M::Enum("C".into(), VK::Unit, vec![]),
        }
    }
    fn hidden(&self) -> Vec<u8> {
        match self {
            _ => vec![],
        }
    }
    fn vals(n: usize, d: usize) -> Vec<Self> {
        let mut per: Vec<Vec<Self>> = vec![];
        per.push({ let l0 = <i32 as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); let l1 = <String as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); let l2 = <Vec<u8> as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); combos(&[l0.len(), l1.len(), l2.len()], n.max(1)).into_iter().map(|c: Vec<usize>| Self::A { a: l0[c[0]].dup(), b: l1[c[1]].dup(), c: l2[c[2]].dup() }).collect::<Vec<Self>>() });
        per.push({ let l0 = <i32 as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); let l1 = <String as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); let l2 = <Vec<u8> as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); combos(&[l0.len(), l1.len(), l2.len()], n.max(1)).into_iter().map(|c: Vec<usize>| Self::B(l0[c[0]].dup(), l1[c[1]].dup(), l2[c[2]].dup())).collect::<Vec<Self>>() });
        per.push(vec![Self::C]);
        interleave(per, n)
    }
    fn into_v(self) -> Option<Value> { Some(self.into()) }
    fn dup(&self) -> Self {
        match self {
            Self::A { a: x0, b: x1, c: x2 } => Self::A { a: x0.dup(), b: x1.dup(), c: x2.dup() },
            Self::B(x0, x1, x2) => Self::B(x0.dup(), x1.dup(), x2.dup()),
            Self::C => Self::C,
        }
    }
    fn dfmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        std::fmt::Debug::fmt(self, f)
    }
}

#[allow(dead_code)]
#[derive(Reflect, Clone, Debug)]
pub struct With2S {
    pub a: i32,
    pub b: String,
    #[reflect(from_reflect_with(rd_bytes))] pub c: Vec<u8>,
}
#[allow(unused_variables, unused_mut, clippy::all)]
impl Modeled for With2S {
    fn t() -> T {
        T::Struct { name: std::any::type_name::<Self>(), fields: vec![FieldT { name: Some("a"), ty: <i32 as Modeled>::t, with: None, meta: vec![], docs: vec![] }, FieldT { name: Some("b"), ty: <String as Modeled>::t, with: None, meta: vec![], docs: vec![] }, FieldT { name: Some("c"), ty: <Vec<u8> as Modeled>::t, with: Some(rd_bytes_m), meta: vec![], docs: vec![] }], meta: vec![], docs: vec![] }
    }
    fn m(&self) -> M {
        M::Struct(vec![("a".to_owned(), self.a.m()), ("b".to_owned(), self.b.m()), ("c".to_owned(), self.c.m())])
    }
    fn hidden(&self) -> Vec<u8> {
        vec![]
    }
    fn vals(n: usize, d: usize) -> Vec<Self> {
        let l0 = <i32 as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); let l1 = <String as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); let l2 = <Vec<u8> as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); combos(&[l0.len(), l1.len(), l2.len()], n.max(1)).into_iter().map(|c: Vec<usize>| Self { a: l0[c[0]].dup(), b: l1[c[1]].dup(), c: l2[c[2]].dup() }).collect::<Vec<Self>>()
    }
    fn into_v(self) -> Option<Value> { Some(self.into()) }
    fn dup(&self) -> Self {
        Self { a: self.a.dup(), b: self.b.dup(), c: self.c.dup() }
    }
    fn dfmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        std::fmt::Debug::fmt(self, f)
    }
}

#[allow(dead_code)]
#[derive(Reflect, Clone, Debug)]
pub struct With2T(
    pub i32,
    pub String,
    #[reflect(from_reflect_with(rd_bytes))] pub Vec<u8>,
);
#[allow(unused_variables, unused_mut, clippy::all)]
impl Modeled for With2T {
    fn t() -> T {
        T::TupleStruct { name: std::any::type_name::<Self>(), fields: vec![FieldT { name: None, ty: <i32 as Modeled>::t, with: None, meta: vec![], docs: vec![] }, FieldT { name: None, ty: <String as Modeled>::t, with: None, meta: vec![], docs: vec![] }, FieldT { name: None, ty: <Vec<u8> as Modeled>::t, with: Some(rd_bytes_m), meta: vec![], docs: vec![] }], meta: vec![], docs: vec![] }
    }
    fn m(&self) -> M {
        M::TupleStruct(vec![self.0.m(), self.1.m(), self.2.m()])
    }
    fn hidden(&self) -> Vec<u8> {
        vec![]
    }
    fn vals(n: usize, d: usize) -> Vec<Self> {
        let l0 = <i32 as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); let l1 = <String as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); let l2 = <Vec<u8> as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); combos(&[l0.len(), l1.len(), l2.len()], n.max(1)).into_iter().map(|c: Vec<usize>| Self(l0[c[0]].dup(), l1[c[1]].dup(), l2[c[2]].dup())).collect::<Vec<Self>>()
    }
    fn into_v(self) -> Option<Value> { Some(self.into()) }
    fn dup(&self) -> Self {
        Self(self.0.dup(), self.1.dup(), self.2.dup())
    }
    fn dfmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        std::fmt::Debug::fmt(self, f)
    }
}

#[allow(dead_code)]
#[derive(Reflect, Clone, Debug)]
pub enum With2E {
    A {
        a: i32,
        b: String,
        #[reflect(from_reflect_with(rd_bytes))] c: Vec<u8>,
    },
    B(
        i32,
        String,
        #[reflect(from_reflect_with(rd_bytes))] Vec<u8>,
    ),
    C,
}
#[allow(unused_variables, unused_mut, clippy::all)]
impl Modeled for With2E {
    fn t() -> T {
        T::Enum { name: std::any::type_name::<Self>(), variants: vec![VariantT { name: "A", kind: VK::Struct, fields: vec![FieldT { name: Some("a"), ty: <i32 as Modeled>::t, with: None, meta: vec![], docs: vec![] }, FieldT { name: Some("b"), ty: <String as Modeled>::t, with: None, meta: vec![], docs: vec![] }, FieldT { name: Some("c"), ty: <Vec<u8> as Modeled>::t, with: Some(rd_bytes_m), meta: vec![], docs: vec![] }], meta: vec![], docs: vec![] }, VariantT { name: "B", kind: VK::Tuple, fields: vec![FieldT { name: None, ty: <i32 as Modeled>::t, with: None, meta: vec![], docs: vec![] }, FieldT { name: None, ty: <String as Modeled>::t, with: None, meta: vec![], docs: vec![] }, FieldT { name: None, ty: <Vec<u8> as Modeled>::t, with: Some(rd_bytes_m), meta: vec![], docs: vec![] }], meta: vec![], docs: vec![] }, VariantT { name: "C", kind: VK::Unit, fields: vec![], meta: vec![], docs: vec![] }], skipped: vec![], meta: vec![], docs: vec![] }
    }
    fn m(&self) -> M {
        match self {
            Self::A { a: x0, b: x1, c: x2 } => M::Enum("A".into(), VK::Struct, vec![(Some("a".into()), x0.m()), (Some("b".into()), x1.m()), (Some("c".into()), x2.m())]),
            Self::B(x0, x1, x2) => M::Enum("B".into(), VK::Tuple, vec![(None, x0.m()), (None, x1.m()), (None, x2.m())]),
            Self::C => M::Enum("C".into(), VK::Unit, vec![]),
        }
    }
    fn hidden(&self) -> Vec<u8> {
        match self {
            _ => vec![],
        }
    }
    fn vals(n: usize, d: usize) -> Vec<Self> {
        let mut per: Vec<Vec<Self>> = vec![];
        per.push({ let l0 = <i32 as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); let l1 = <String as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); let l2 = <Vec<u8> as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); combos(&[l0.len(), l1.len(), l2.len()], n.max(1)).into_iter().map(|c: Vec<usize>| Self::A { a: l0[c[0]].dup(), b: l1[c[1]].dup(), c: l2[c[2]].dup() }).collect::<Vec<Self>>() });
        per.push({ let l0 = <i32 as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); let l1 = <String as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); let l2 = <Vec<u8> as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); combos(&[l0.len(), l1.len(), l2.len()], n.max(1)).into_iter().map(|c: Vec<usize>| Self::B(l0[c[0]].dup(), l1[c[1]].dup(), l2[c[2]].dup())).collect::<Vec<Self>>() });
        per.push(vec![Self::C]);
        interleave(per, n)
    }
    fn into_v(self) -> Option<Value> { Some(self.into()) }
    fn dup(&self) -> Self {
        match self {
            Self::A { a: x0, b: x1, c: x2 } => Self::A { a: x0.dup(), b: x1.dup(), c: x2.dup() },
            Self::B(x0, x1, x2) => Self::B(x0.dup(), x1.dup(), x2.dup()),
            Self::C => Self::C,
        }
    }
    fn dfmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        std::fmt::Debug::fmt(self, f)
    }
}

#[allow(dead_code)]
#[derive(Reflect, Clone, Debug)]
pub struct WithAllS {
    #[reflect(from_reflect_with(rd_i32))] pub a: i32,
    #[reflect(skip)] pub h: Hid,
    pub b: i32,
    #[reflect(from_reflect_with(rd_str))] pub c: String,
}
#[allow(unused_variables, unused_mut, clippy::all)]
impl Modeled for WithAllS {
    fn t() -> T {
        T::Struct { name: std::any::type_name::<Self>(), fields: vec![FieldT { name: Some("a"), ty: <i32 as Modeled>::t, with: Some(rd_i32_m), meta: vec![], docs: vec![] }, FieldT { name: Some("b"), ty: <i32 as Modeled>::t, with: None, meta: vec![], docs: vec![] }, FieldT { name: Some("c"), ty: <String as Modeled>::t, with: Some(rd_str_m), meta: vec![], docs: vec![] }], meta: vec![], docs: vec![] }
    }
    fn m(&self) -> M {
        M::Struct(vec![("a".to_owned(), self.a.m()), ("b".to_owned(), self.b.m()), ("c".to_owned(), self.c.m())])
    }
    fn hidden(&self) -> Vec<u8> {
        vec![self.h.0]
    }
    fn vals(n: usize, d: usize) -> Vec<Self> {
        let l0 = <i32 as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); let l2 = <i32 as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); let l3 = <String as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); combos(&[l0.len(), l2.len(), l3.len()], n.max(1)).into_iter().map(|c: Vec<usize>| Self { a: l0[c[0]].dup(), h: Hid(2), b: l2[c[1]].dup(), c: l3[c[2]].dup() }).collect::<Vec<Self>>()
    }
    fn into_v(self) -> Option<Value> { Some(self.into()) }
    fn dup(&self) -> Self {
        Self { a: self.a.dup(), h: Hid(self.h.0), b: self.b.dup(), c: self.c.dup() }
    }
    fn dfmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        std::fmt::Debug::fmt(self, f)
    }
}

#[allow(dead_code)]
#[derive(Reflect, Clone, Debug)]
pub struct WithAllT(
    #[reflect(from_reflect_with(rd_i32))] pub i32,
    #[reflect(skip)] pub Hid,
    pub i32,
    #[reflect(from_reflect_with(rd_str))] pub String,
);
#[allow(unused_variables, unused_mut, clippy::all)]
impl Modeled for WithAllT {
    fn t() -> T {
        T::TupleStruct { name: std::any::type_name::<Self>(), fields: vec![FieldT { name: None, ty: <i32 as Modeled>::t, with: Some(rd_i32_m), meta: vec![], docs: vec![] }, FieldT { name: None, ty: <i32 as Modeled>::t, with: None, meta: vec![], docs: vec![] }, FieldT { name: None, ty: <String as Modeled>::t, with: Some(rd_str_m), meta: vec![], docs: vec![] }], meta: vec![], docs: vec![] }
    }
    fn m(&self) -> M {
        M::TupleStruct(vec![self.0.m(), self.2.m(), self.3.m()])
    }
    fn hidden(&self) -> Vec<u8> {
        vec![self.1.0]
    }
    fn vals(n: usize, d: usize) -> Vec<Self> {
        let l0 = <i32 as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); let l2 = <i32 as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); let l3 = <String as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); combos(&[l0.len(), l2.len(), l3.len()], n.max(1)).into_iter().map(|c: Vec<usize>| Self(l0[c[0]].dup(), Hid(2), l2[c[1]].dup(), l3[c[2]].dup())).collect::<Vec<Self>>()
    }
    fn into_v(self) -> Option<Value> { Some(self.into()) }
    fn dup(&self) -> Self {
        Self(self.0.dup(), Hid(self.1.0), self.2.dup(), self.3.dup())
    }
    fn dfmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        std::fmt::Debug::fmt(self, f)
    }
}

#[allow(dead_code)]
#[derive(Reflect, Clone, Debug)]
pub enum WithAllE {
    A {
        #[reflect(from_reflect_with(rd_i32))] a: i32,
        #[reflect(skip)] h: Hid,
        b: i32,
        #[reflect(from_reflect_with(rd_str))] c: String,
    },
    B(
        #[reflect(from_reflect_with(rd_i32))] i32,
        #[reflect(skip)] Hid,
        i32,
        #[reflect(from_reflect_with(rd_str))] String,
    ),
}
#[allow(unused_variables, unused_mut, clippy::all)]
impl Modeled for WithAllE {
    fn t() -> T {
        T::Enum { name: std::any::type_name::<Self>(), variants: vec![VariantT { name: "A", kind: VK::Struct, fields: vec![FieldT { name: Some("a"), ty: <i32 as Modeled>::t, with: Some(rd_i32_m), meta: vec![], docs: vec![] }, FieldT { name: Some("b"), ty: <i32 as Modeled>::t, with: None, meta: vec![], docs: vec![] }, FieldT { name: Some("c"), ty: <String as Modeled>::t, with: Some(rd_str_m), meta: vec![], docs: vec![] }], meta: vec![], docs: vec![] }, VariantT { name: "B", kind: VK::Tuple, fields: vec![FieldT { name: None, ty: <i32 as Modeled>::t, with: Some(rd_i32_m), meta: vec![], docs: vec![] }, FieldT { name: None, ty: <i32 as Modeled>::t, with: None, meta: vec![], docs: vec![] }, FieldT { name: None, ty: <String as Modeled>::t, with: Some(rd_str_m), meta: vec![], docs: vec![] }], meta: vec![], docs: vec![] }], skipped: vec![], meta: vec![], docs: vec![] }
    }
    fn m(&self) -> M {
        match self {
            Self::A { a: x0, h: x1, b: x2, c: x3 } => M::Enum("A".into(), VK::Struct, vec![(Some("a".into()), x0.m()), (Some("b".into()), x2.m()), (Some("c".into()), x3.m())]),
            Self::B(x0, x1, x2, x3) => M::Enum("B".into(), VK::Tuple, vec![(None, x0.m()), (None, x2.m()), (None, x3.m())]),
        }
    }
    fn hidden(&self) -> Vec<u8> {
        match self {
            Self::A { a: x0, h: x1, b: x2, c: x3 } => vec![x1.0],
            Self::B(x0, x1, x2, x3) => vec![x1.0],
            _ => vec![],
        }
    }
    fn vals(n: usize, d: usize) -> Vec<Self> {
        let mut per: Vec<Vec<Self>> = vec![];
        per.push({ let l0 = <i32 as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); let l2 = <i32 as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); let l3 = <String as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); combos(&[l0.len(), l2.len(), l3.len()], n.max(1)).into_iter().map(|c: Vec<usize>| Self::A { a: l0[c[0]].dup(), h: Hid(2), b: l2[c[1]].dup(), c: l3[c[2]].dup() }).collect::<Vec<Self>>() });
        per.push({ let l0 = <i32 as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); let l2 = <i32 as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); let l3 = <String as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); combos(&[l0.len(), l2.len(), l3.len()], n.max(1)).into_iter().map(|c: Vec<usize>| Self::B(l0[c[0]].dup(), Hid(2), l2[c[1]].dup(), l3[c[2]].dup())).collect::<Vec<Self>>() });
        interleave(per, n)
    }
    fn into_v(self) -> Option<Value> { Some(self.into()) }
    fn dup(&self) -> Self {
        match self {
            Self::A { a: x0, h: x1, b: x2, c: x3 } => Self::A { a: x0.dup(), h: Hid(x1.0), b: x2.dup(), c: x3.dup() },
            Self::B(x0, x1, x2, x3) => Self::B(x0.dup(), Hid(x1.0), x2.dup(), x3.dup()),
        }
    }
    fn dfmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        std::fmt::Debug::fmt(self, f)
    }
}

#[allow(dead_code)]
#[derive(Reflect, Debug)]
#[reflect(opt_out(Clone))]
pub struct WithCloneS {
    #[reflect(from_reflect_with(rd_i32))] pub a: i32,
    #[reflect(skip)] pub h: Hid,
    pub b: i32,
    #[reflect(from_reflect_with(rd_str))] pub c: String,
}
#[allow(unused_variables, unused_mut, clippy::all)]
impl Modeled for WithCloneS {
    fn t() -> T {
        T::Struct { name: std::any::type_name::<Self>(), fields: vec![FieldT { name: Some("a"), ty: <i32 as Modeled>::t, with: Some(rd_i32_m), meta: vec![], docs: vec![] }, FieldT { name: Some("b"), ty: <i32 as Modeled>::t, with: None, meta: vec![], docs: vec![] }, FieldT { name: Some("c"), ty: <String as Modeled>::t, with: Some(rd_str_m), meta: vec![], docs: vec![] }], meta: vec![], docs: vec![] }
    }
    fn m(&self) -> M {
        M::Struct(vec![("a".to_owned(), self.a.m()), ("b".to_owned(), self.b.m()), ("c".to_owned(), self.c.m())])
    }
    fn hidden(&self) -> Vec<u8> {
        vec![self.h.0]
    }
    fn vals(n: usize, d: usize) -> Vec<Self> {
        let l0 = <i32 as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); let l2 = <i32 as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); let l3 = <String as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); combos(&[l0.len(), l2.len(), l3.len()], n.max(1)).into_iter().map(|c: Vec<usize>| Self { a: l0[c[0]].dup(), h: Hid(2), b: l2[c[1]].dup(), c: l3[c[2]].dup() }).collect::<Vec<Self>>()
    }
    fn into_v(self) -> Option<Value> { Some(self.into()) }
    fn dup(&self) -> Self {
        Self { a: self.a.dup(), h: Hid(self.h.0), b: self.b.dup(), c: self.c.dup() }
    }
    fn dfmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        std::fmt::Debug::fmt(self, f)
    }
}

#[allow(dead_code)]
#[derive(Reflect, Debug)]
#[reflect(opt_out(Clone))]
pub struct WithCloneT(
    #[reflect(from_reflect_with(rd_i32))] pub i32,
    #[reflect(skip)] pub Hid,
    pub i32,
    #[reflect(from_reflect_with(rd_str))] pub String,
);
#[allow(unused_variables, unused_mut, clippy::all)]
impl Modeled for WithCloneT {
    fn t() -> T {
        T::TupleStruct { name: std::any::type_name::<Self>(), fields: vec![FieldT { name: None, ty: <i32 as Modeled>::t, with: Some(rd_i32_m), meta: vec![], docs: vec![] }, FieldT { name: None, ty: <i32 as Modeled>::t, with: None, meta: vec![], docs: vec![] }, FieldT { name: None, ty: <String as Modeled>::t, with: Some(rd_str_m), meta: vec![], docs: vec![] }], meta: vec![], docs: vec![] }
    }
    fn m(&self) -> M {
        M::TupleStruct(vec![self.0.m(), self.2.m(), self.3.m()])
    }
    fn hidden(&self) -> Vec<u8> {
        vec![self.1.0]
    }
    fn vals(n: usize, d: usize) -> Vec<Self> {
        let l0 = <i32 as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); let l2 = <i32 as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); let l3 = <String as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); combos(&[l0.len(), l2.len(), l3.len()], n.max(1)).into_iter().map(|c: Vec<usize>| Self(l0[c[0]].dup(), Hid(2), l2[c[1]].dup(), l3[c[2]].dup())).collect::<Vec<Self>>()
    }
    fn into_v(self) -> Option<Value> { Some(self.into()) }
    fn dup(&self) -> Self {
        Self(self.0.dup(), Hid(self.1.0), self.2.dup(), self.3.dup())
    }
    fn dfmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        std::fmt::Debug::fmt(self, f)
    }
}

#[allow(dead_code)]
#[derive(Reflect, Debug)]
#[reflect(opt_out(Clone))]
pub enum WithCloneE {
    A {
        #[reflect(from_reflect_with(rd_i32))] a: i32,
        #[reflect(skip)] h: Hid,
        b: i32,
        #[reflect(from_reflect_with(rd_str))] c: String,
    },
    B(
        #[reflect(from_reflect_with(rd_i32))] i32,
        #[reflect(skip)] Hid,
        i32,
        #[reflect(from_reflect_with(rd_str))] String,
    ),
}
#[allow(unused_variables, unused_mut, clippy::all)]
impl Modeled for WithCloneE {
    fn t() -> T {
        T::Enum { name: std::any::type_name::<Self>(), variants: vec![VariantT { name: "A", kind: VK::Struct, fields: vec![FieldT { name: Some("a"), ty: <i32 as Modeled>::t, with: Some(rd_i32_m), meta: vec![], docs: vec![] }, FieldT { name: Some("b"), ty: <i32 as Modeled>::t, with: None, meta: vec![], docs: vec![] }, FieldT { name: Some("c"), ty: <String as Modeled>::t, with: Some(rd_str_m), meta: vec![], docs: vec![] }], meta: vec![], docs: vec![] }, VariantT { name: "B", kind: VK::Tuple, fields: vec![FieldT { name: None, ty: <i32 as Modeled>::t, with: Some(rd_i32_m), meta: vec![], docs: vec![] }, FieldT { name: None, ty: <i32 as Modeled>::t, with: None, meta: vec![], docs: vec![] }, FieldT { name: None, ty: <String as Modeled>::t, with: Some(rd_str_m), meta: vec![], docs: vec![] }], meta: vec![], docs: vec![] }], skipped: vec![], meta: vec![], docs: vec![] }
    }
    fn m(&self) -> M {
        match self {
            Self::A { a: x0, h: x1, b: x2, c: x3 } => M::Enum("A".into(), VK::Struct, vec![(Some("a".into()), x0.m()), (Some("b".into()), x2.m()), (Some("c".into()), x3.m())]),
            Self::B(x0, x1, x2, x3) => M::Enum("B".into(), VK::Tuple, vec![(None, x0.m()), (None, x2.m()), (None, x3.m())]),
        }
    }
    fn hidden(&self) -> Vec<u8> {
        match self {
            Self::A { a: x0, h: x1, b: x2, c: x3 } => vec![x1.0],
            Self::B(x0, x1, x2, x3) => vec![x1.0],
            _ => vec![],
        }
    }
    fn vals(n: usize, d: usize) -> Vec<Self> {
        let mut per: Vec<Vec<Self>> = vec![];
        per.push({ let l0 = <i32 as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); let l2 = <i32 as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); let l3 = <String as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); combos(&[l0.len(), l2.len(), l3.len()], n.max(1)).into_iter().map(|c: Vec<usize>| Self::A { a: l0[c[0]].dup(), h: Hid(2), b: l2[c[1]].dup(), c: l3[c[2]].dup() }).collect::<Vec<Self>>() });
        per.push({ let l0 = <i32 as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); let l2 = <i32 as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); let l3 = <String as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); combos(&[l0.len(), l2.len(), l3.len()], n.max(1)).into_iter().map(|c: Vec<usize>| Self::B(l0[c[0]].dup(), Hid(2), l2[c[1]].dup(), l3[c[2]].dup())).collect::<Vec<Self>>() });
        interleave(per, n)
    }
    fn into_v(self) -> Option<Value> { Some(self.into()) }
    fn dup(&self) -> Self {
        match self {
            Self::A { a: x0, h: x1, b: x2, c: x3 } => Self::A { a: x0.dup(), h: Hid(x1.0), b: x2.dup(), c: x3.dup() },
            Self::B(x0, x1, x2, x3) => Self::B(x0.dup(), Hid(x1.0), x2.dup(), x3.dup()),
        }
    }
    fn dfmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        std::fmt::Debug::fmt(self, f)
    }
}

#[allow(dead_code)]
#[derive(Reflect, Clone, Debug)]
pub struct Nasty0S {
    pub name: String,
    pub index: u8,
    pub value: i32,
    pub fields: bool,
}
#[allow(unused_variables, unused_mut, clippy::all)]
impl Modeled for Nasty0S {
    fn t() -> T {
        T::Struct { name: std::any::type_name::<Self>(), fields: vec![FieldT { name: Some("name"), ty: <String as Modeled>::t, with: None, meta: vec![], docs: vec![] }, FieldT { name: Some("index"), ty: <u8 as Modeled>::t, with: None, meta: vec![], docs: vec![] }, FieldT { name: Some("value"), ty: <i32 as Modeled>::t, with: None, meta: vec![], docs: vec![] }, FieldT { name: Some("fields"), ty: <bool as Modeled>::t, with: None, meta: vec![], docs: vec![] }], meta: vec![], docs: vec![] }
    }
    fn m(&self) -> M {
        M::Struct(vec![("name".to_owned(), self.name.m()), ("index".to_owned(), self.index.m()), ("value".to_owned(), self.value.m()), ("fields".to_owned(), self.fields.m())])
    }
    fn hidden(&self) -> Vec<u8> {
        vec![]
    }
    fn vals(n: usize, d: usize) -> Vec<Self> {
        let l0 = <String as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); let l1 = <u8 as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); let l2 = <i32 as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); let l3 = <bool as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); combos(&[l0.len(), l1.len(), l2.len(), l3.len()], n.max(1)).into_iter().map(|c: Vec<usize>| Self { name: l0[c[0]].dup(), index: l1[c[1]].dup(), value: l2[c[2]].dup(), fields: l3[c[3]].dup() }).collect::<Vec<Self>>()
    }
    fn into_v(self) -> Option<Value> { Some(self.into()) }
    fn dup(&self) -> Self {
        Self { name: self.name.dup(), index: self.index.dup(), value: self.value.dup(), fields: self.fields.dup() }
    }
    fn dfmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        std::fmt::Debug::fmt(self, f)
    }
}

#[allow(dead_code)]
#[derive(Reflect, Clone, Debug)]
pub enum Nasty0E {
    V {
        name: String,
        index: u8,
        value: i32,
        fields: bool,
    },
    W,
}
#[allow(unused_variables, unused_mut, clippy::all)]
impl Modeled for Nasty0E {
    fn t() -> T {
        T::Enum { name: std::any::type_name::<Self>(), variants: vec![VariantT { name: "V", kind: VK::Struct, fields: vec![FieldT { name: Some("name"), ty: <String as Modeled>::t, with: None, meta: vec![], docs: vec![] }, FieldT { name: Some("index"), ty: <u8 as Modeled>::t, with: None, meta: vec![], docs: vec![] }, FieldT { name: Some("value"), ty: <i32 as Modeled>::t, with: None, meta: vec![], docs: vec![] }, FieldT { name: Some("fields"), ty: <bool as Modeled>::t, with: None, meta: vec![], docs: vec![] }], meta: vec![], docs: vec![] }, VariantT { name: "W", kind: VK::Unit, fields: vec![], meta: vec![], docs: vec![] }], skipped: vec![], meta: vec![], docs: vec![] }
    }
    fn m(&self) -> M {
        match self {
            Self::V { name: x0, index: x1, value: x2, fields: x3 } => M::Enum("V".into(), VK::Struct, vec![(Some("name".into()), x0.m()), (Some("index".into()), x1.m()), (Some("value".into()), x2.m()), (Some("fields".into()), x3.m())]),
            Self::W => M::Enum("W".into(), VK::Unit, vec![]),
        }
    }
    fn hidden(&self) -> Vec<u8> {
        match self {
            _ => vec![],
        }
    }
    fn vals(n: usize, d: usize) -> Vec<Self> {
        let mut per: Vec<Vec<Self>> = vec![];
        per.push({ let l0 = <String as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); let l1 = <u8 as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); let l2 = <i32 as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); let l3 = <bool as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); combos(&[l0.len(), l1.len(), l2.len(), l3.len()], n.max(1)).into_iter().map(|c: Vec<usize>| Self::V { name: l0[c[0]].dup(), index: l1[c[1]].dup(), value: l2[c[2]].dup(), fields: l3[c[3]].dup() }).collect::<Vec<Self>>() });
        per.push(vec![Self::W]);
        interleave(per, n)
    }
    fn into_v(self) -> Option<Value> { Some(self.into()) }
    fn dup(&self) -> Self {
        match self {
            Self::V { name: x0, index: x1, value: x2, fields: x3 } => Self::V { name: x0.dup(), index: x1.dup(), value: x2.dup(), fields: x3.dup() },
            Self::W => Self::W,
        }
    }
    fn dfmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        std::fmt::Debug::fmt(self, f)
    }
}

#[allow(dead_code)]
#[derive(Reflect, Debug)]
#[reflect(opt_out(Clone))]
pub enum Nasty0K {
    V {
        name: String,
        index: u8,
        value: i32,
        fields: bool,
    },
    W(
        u8,
    ),
}
#[allow(unused_variables, unused_mut, clippy::all)]
impl Modeled for Nasty0K {
    fn t() -> T {
        T::Enum { name: std::any::type_name::<Self>(), variants: vec![VariantT { name: "V", kind: VK::Struct, fields: vec![FieldT { name: Some("name"), ty: <String as Modeled>::t, with: None, meta: vec![], docs: vec![] }, FieldT { name: Some("index"), ty: <u8 as Modeled>::t, with: None, meta: vec![], docs: vec![] }, FieldT { name: Some("value"), ty: <i32 as Modeled>::t, with: None, meta: vec![], docs: vec![] }, FieldT { name: Some("fields"), ty: <bool as Modeled>::t, with: None, meta: vec![], docs: vec![] }], meta: vec![], docs: vec![] }, VariantT { name: "W", kind: VK::Tuple, fields: vec![FieldT { name: None, ty: <u8 as Modeled>::t, with: None, meta: vec![], docs: vec![] }], meta: vec![], docs: vec![] }], skipped: vec![], meta: vec![], docs: vec![] }
    }
    fn m(&self) -> M {
        match self {
            Self::V { name: x0, index: x1, value: x2, fields: x3 } => M::Enum("V".into(), VK::Struct, vec![(Some("name".into()), x0.m()), (Some("index".into()), x1.m()), (Some("value".into()), x2.m()), (Some("fields".into()), x3.m())]),
            Self::W(x0) => M::Enum("W".into(), VK::Tuple, vec![(None, x0.m())]),
        }
    }
    fn hidden(&self) -> Vec<u8> {
        match self {
            _ => vec![],
        }
    }
    fn vals(n: usize, d: usize) -> Vec<Self> {
        let mut per: Vec<Vec<Self>> = vec![];
        per.push({ let l0 = <String as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); let l1 = <u8 as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); let l2 = <i32 as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); let l3 = <bool as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); combos(&[l0.len(), l1.len(), l2.len(), l3.len()], n.max(1)).into_iter().map(|c: Vec<usize>| Self::V { name: l0[c[0]].dup(), index: l1[c[1]].dup(), value: l2[c[2]].dup(), fields: l3[c[3]].dup() }).collect::<Vec<Self>>() });
        per.push({ let l0 = <u8 as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); combos(&[l0.len()], n.max(1)).into_iter().map(|c: Vec<usize>| Self::W(l0[c[0]].dup())).collect::<Vec<Self>>() });
        interleave(per, n)
    }
    fn into_v(self) -> Option<Value> { Some(self.into()) }
    fn dup(&self) -> Self {
        match self {
            Self::V { name: x0, index: x1, value: x2, fields: x3 } => Self::V { name: x0.dup(), index: x1.dup(), value: x2.dup(), fields: x3.dup() },
            Self::W(x0) => Self::W(x0.dup()),
        }
    }
    fn dfmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        std::fmt::Debug::fmt(self, f)
    }
}

#[allow(dead_code)]
#[derive(Reflect, Clone, Debug)]
pub struct Nasty1S {
    pub field: String,
    pub enum_: u8,
    pub struct_: i32,
    pub tuple_struct: bool,
}
#[allow(unused_variables, unused_mut, clippy::all)]
impl Modeled for Nasty1S {
    fn t() -> T {
        T::Struct { name: std::any::type_name::<Self>(), fields: vec![FieldT { name: Some("field"), ty: <String as Modeled>::t, with: None, meta: vec![], docs: vec![] }, FieldT { name: Some("enum_"), ty: <u8 as Modeled>::t, with: None, meta: vec![], docs: vec![] }, FieldT { name: Some("struct_"), ty: <i32 as Modeled>::t, with: None, meta: vec![], docs: vec![] }, FieldT { name: Some("tuple_struct"), ty: <bool as Modeled>::t, with: None, meta: vec![], docs: vec![] }], meta: vec![], docs: vec![] }
    }
    fn m(&self) -> M {
        M::Struct(vec![("field".to_owned(), self.field.m()), ("enum_".to_owned(), self.enum_.m()), ("struct_".to_owned(), self.struct_.m()), ("tuple_struct".to_owned(), self.tuple_struct.m())])
    }
    fn hidden(&self) -> Vec<u8> {
        vec![]
    }
    fn vals(n: usize, d: usize) -> Vec<Self> {
        let l0 = <String as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); let l1 = <u8 as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); let l2 = <i32 as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); let l3 = <bool as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); combos(&[l0.len(), l1.len(), l2.len(), l3.len()], n.max(1)).into_iter().map(|c: Vec<usize>| Self { field: l0[c[0]].dup(), enum_: l1[c[1]].dup(), struct_: l2[c[2]].dup(), tuple_struct: l3[c[3]].dup() }).collect::<Vec<Self>>()
    }
    fn into_v(self) -> Option<Value> { Some(self.into()) }
    fn dup(&self) -> Self {
        Self { field: self.field.dup(), enum_: self.enum_.dup(), struct_: self.struct_.dup(), tuple_struct: self.tuple_struct.dup() }
    }
    fn dfmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        std::fmt::Debug::fmt(self, f)
    }
}

#[allow(dead_code)]
#[derive(Reflect, Clone, Debug)]
pub enum Nasty1E {
    V {
        field: String,
        enum_: u8,
        struct_: i32,
        tuple_struct: bool,
    },
    W,
}
#[allow(unused_variables, unused_mut, clippy::all)]
impl Modeled for Nasty1E {
    fn t() -> T {
        T::Enum { name: std::any::type_name::<Self>(), variants: vec![VariantT { name: "V", kind: VK::Struct, fields: vec![FieldT { name: Some("field"), ty: <String as Modeled>::t, with: None, meta: vec![], docs: vec![] }, FieldT { name: Some("enum_"), ty: <u8 as Modeled>::t, with: None, meta: vec![], docs: vec![] }, FieldT { name: Some("struct_"), ty: <i32 as Modeled>::t, with: None, meta: vec![], docs: vec![] }, FieldT { name: Some("tuple_struct"), ty: <bool as Modeled>::t, with: None, meta: vec![], docs: vec![] }], meta: vec![], docs: vec![] }, VariantT { name: "W", kind: VK::Unit, fields: vec![], meta: vec![], docs: vec![] }], skipped: vec![], meta: vec![], docs: vec![] }
    }
    fn m(&self) -> M {
        match self {
            Self::V { field: x0, enum_: x1, struct_: x2, tuple_struct: x3 } => M::Enum("V".into(), VK::Struct, vec![(Some("field".into()), x0.m()), (Some("enum_".into()), x1.m()), (Some("struct_".into()), x2.m()), (Some("tuple_struct".into()), x3.m())]),
            Self::W => M::Enum("W".into(), VK::Unit, vec![]),
        }
    }
    fn hidden(&self) -> Vec<u8> {
        match self {
            _ => vec![],
        }
    }
    fn vals(n: usize, d: usize) -> Vec<Self> {
        let mut per: Vec<Vec<Self>> = vec![];
        per.push({ let l0 = <String as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); let l1 = <u8 as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); let l2 = <i32 as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); let l3 = <bool as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); combos(&[l0.len(), l1.len(), l2.len(), l3.len()], n.max(1)).into_iter().map(|c: Vec<usize>| Self::V { field: l0[c[0]].dup(), enum_: l1[c[1]].dup(), struct_: l2[c[2]].dup(), tuple_struct: l3[c[3]].dup() }).collect::<Vec<Self>>() });
        per.push(vec![Self::W]);
        interleave(per, n)
    }
    fn into_v(self) -> Option<Value> { Some(self.into()) }
    fn dup(&self) -> Self {
        match self {
            Self::V { field: x0, enum_: x1, struct_: x2, tuple_struct: x3 } => Self::V { field: x0.dup(), enum_: x1.dup(), struct_: x2.dup(), tuple_struct: x3.dup() },
            Self::W => Self::W,
        }
    }
    fn dfmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        std::fmt::Debug::fmt(self, f)
    }
}

#[allow(dead_code)]
#[derive(Reflect, Debug)]
#[reflect(opt_out(Clone))]
pub enum Nasty1K {
    V {
        field: String,
        enum_: u8,
        struct_: i32,
        tuple_struct: bool,
    },
    W(
        u8,
    ),
}
#[allow(unused_variables, unused_mut, clippy::all)]
impl Modeled for Nasty1K {
    fn t() -> T {
        T::Enum { name: std::any::type_name::<Self>(), variants: vec![VariantT { name: "V", kind: VK::Struct, fields: vec![FieldT { name: Some("field"), ty: <String as Modeled>::t, with: None, meta: vec![], docs: vec![] }, FieldT { name: Some("enum_"), ty: <u8 as Modeled>::t, with: None, meta: vec![], docs: vec![] }, FieldT { name: Some("struct_"), ty: <i32 as Modeled>::t, with: None, meta: vec![], docs: vec![] }, FieldT { name: Some("tuple_struct"), ty: <bool as Modeled>::t, with: None, meta: vec![], docs: vec![] }], meta: vec![], docs: vec![] }, VariantT { name: "W", kind: VK::Tuple, fields: vec![FieldT { name: None, ty: <u8 as Modeled>::t, with: None, meta: vec![], docs: vec![] }], meta: vec![], docs: vec![] }], skipped: vec![], meta: vec![], docs: vec![] }
    }
    fn m(&self) -> M {
        match self {
            Self::V { field: x0, enum_: x1, struct_: x2, tuple_struct: x3 } => M::Enum("V".into(), VK::Struct, vec![(Some("field".into()), x0.m()), (Some("enum_".into()), x1.m()), (Some("struct_".into()), x2.m()), (Some("tuple_struct".into()), x3.m())]),
            Self::W(x0) => M::Enum("W".into(), VK::Tuple, vec![(None, x0.m())]),
        }
    }
    fn hidden(&self) -> Vec<u8> {
        match self {
            _ => vec![],
        }
    }
    fn vals(n: usize, d: usize) -> Vec<Self> {
        let mut per: Vec<Vec<Self>> = vec![];
        per.push({ let l0 = <String as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); let l1 = <u8 as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); let l2 = <i32 as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); let l3 = <bool as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); combos(&[l0.len(), l1.len(), l2.len(), l3.len()], n.max(1)).into_iter().map(|c: Vec<usize>| Self::V { field: l0[c[0]].dup(), enum_: l1[c[1]].dup(), struct_: l2[c[2]].dup(), tuple_struct: l3[c[3]].dup() }).collect::<Vec<Self>>() });
        per.push({ let l0 = <u8 as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); combos(&[l0.len()], n.max(1)).into_iter().map(|c: Vec<usize>| Self::W(l0[c[0]].dup())).collect::<Vec<Self>>() });
        interleave(per, n)
    }
    fn into_v(self) -> Option<Value> { Some(self.into()) }
    fn dup(&self) -> Self {
        match self {
            Self::V { field: x0, enum_: x1, struct_: x2, tuple_struct: x3 } => Self::V { field: x0.dup(), enum_: x1.dup(), struct_: x2.dup(), tuple_struct: x3.dup() },
            Self::W(x0) => Self::W(x0.dup()),
        }
    }
    fn dfmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        std::fmt::Debug::fmt(self, f)
    }
}

#[allow(dead_code)]
#[derive(Reflect, Clone, Debug)]
pub struct Nasty2S {
    pub tuple: String,
    pub variant_matches: u8,
    pub new_value: i32,
    pub new: bool,
}
#[allow(unused_variables, unused_mut, clippy::all)]
impl Modeled for Nasty2S {
    fn t() -> T {
        T::Struct { name: std::any::type_name::<Self>(), fields: vec![FieldT { name: Some("tuple"), ty: <String as Modeled>::t, with: None, meta: vec![], docs: vec![] }, FieldT { name: Some("variant_matches"), ty: <u8 as Modeled>::t, with: None, meta: vec![], docs: vec![] }, FieldT { name: Some("new_value"), ty: <i32 as Modeled>::t, with: None, meta: vec![], docs: vec![] }, FieldT { name: Some("new"), ty: <bool as Modeled>::t, with: None, meta: vec![], docs: vec![] }], meta: vec![], docs: vec![] }
    }
    fn m(&self) -> M {
        M::Struct(vec![("tuple".to_owned(), self.tuple.m()), ("variant_matches".to_owned(), self.variant_matches.m()), ("new_value".to_owned(), self.new_value.m()), ("new".to_owned(), self.new.m())])
    }
    fn hidden(&self) -> Vec<u8> {
        vec![]
    }
    fn vals(n: usize, d: usize) -> Vec<Self> {
        let l0 = <String as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); let l1 = <u8 as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); let l2 = <i32 as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); let l3 = <bool as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); combos(&[l0.len(), l1.len(), l2.len(), l3.len()], n.max(1)).into_iter().map(|c: Vec<usize>| Self { tuple: l0[c[0]].dup(), variant_matches: l1[c[1]].dup(), new_value: l2[c[2]].dup(), new: l3[c[3]].dup() }).collect::<Vec<Self>>()
    }
    fn into_v(self) -> Option<Value> { Some(self.into()) }
    fn dup(&self) -> Self {
        Self { tuple: self.tuple.dup(), variant_matches: self.variant_matches.dup(), new_value: self.new_value.dup(), new: self.new.dup() }
    }
    fn dfmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        std::fmt::Debug::fmt(self, f)
    }
}

#[allow(dead_code)]
#[derive(Reflect, Clone, Debug)]
pub enum Nasty2E {
    V {
        tuple: String,
        variant_matches: u8,
        new_value: i32,
        new: bool,
    },
    W,
}
#[allow(unused_variables, unused_mut, clippy::all)]
impl Modeled for Nasty2E {
    fn t() -> T {
        T::Enum { name: std::any::type_name::<Self>(), variants: vec![VariantT { name: "V", kind: VK::Struct, fields: vec![FieldT { name: Some("tuple"), ty: <String as Modeled>::t, with: None, meta: vec![], docs: vec![] }, FieldT { name: Some("variant_matches"), ty: <u8 as Modeled>::t, with: None, meta: vec![], docs: vec![] }, FieldT { name: Some("new_value"), ty: <i32 as Modeled>::t, with: None, meta: vec![], docs: vec![] }, FieldT { name: Some("new"), ty: <bool as Modeled>::t, with: None, meta: vec![], docs: vec![] }], meta: vec![], docs: vec![] }, VariantT { name: "W", kind: VK::Unit, fields: vec![], meta: vec![], docs: vec![] }], skipped: vec![], meta: vec![], docs: vec![] }
    }
    fn m(&self) -> M {
        match self {
            Self::V { tuple: x0, variant_matches: x1, new_value: x2, new: x3 } => M::Enum("V".into(), VK::Struct, vec![(Some("tuple".into()), x0.m()), (Some("variant_matches".into()), x1.m()), (Some("new_value".into()), x2.m()), (Some("new".into()), x3.m())]),
            Self::W => M::Enum("W".into(), VK::Unit, vec![]),
        }
    }
    fn hidden(&self) -> Vec<u8> {
        match self {
            _ => vec![],
        }
    }
    fn vals(n: usize, d: usize) -> Vec<Self> {
        let mut per: Vec<Vec<Self>> = vec![];
        per.push({ let l0 = <String as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); let l1 = <u8 as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); let l2 = <i32 as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); let l3 = <bool as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); combos(&[l0.len(), l1.len(), l2.len(), l3.len()], n.max(1)).into_iter().map(|c: Vec<usize>| Self::V { tuple: l0[c[0]].dup(), variant_matches: l1[c[1]].dup(), new_value: l2[c[2]].dup(), new: l3[c[3]].dup() }).collect::<Vec<Self>>() });
        per.push(vec![Self::W]);
        interleave(per, n)
    }
    fn into_v(self) -> Option<Value> { Some(self.into()) }
    fn dup(&self) -> Self {
        match self {
            Self::V { tuple: x0, variant_matches: x1, new_value: x2, new: x3 } => Self::V { tuple: x0.dup(), variant_matches: x1.dup(), new_value: x2.dup(), new: x3.dup() },
            Self::W => Self::W,
        }
    }
    fn dfmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        std::fmt::Debug::fmt(self, f)
    }
}

#[allow(dead_code)]
#[derive(Reflect, Debug)]
#[reflect(opt_out(Clone))]
pub enum Nasty2K {
    V {
        tuple: String,
        variant_matches: u8,
        new_value: i32,
        new: bool,
    },
    W(
        u8,
    ),
}
#[allow(unused_variables, unused_mut, clippy::all)]
impl Modeled for Nasty2K {
    fn t() -> T {
        T::Enum { name: std::any::type_name::<Self>(), variants: vec![VariantT { name: "V", kind: VK::Struct, fields: vec![FieldT { name: Some("tuple"), ty: <String as Modeled>::t, with: None, meta: vec![], docs: vec![] }, FieldT { name: Some("variant_matches"), ty: <u8 as Modeled>::t, with: None, meta: vec![], docs: vec![] }, FieldT { name: Some("new_value"), ty: <i32 as Modeled>::t, with: None, meta: vec![], docs: vec![] }, FieldT { name: Some("new"), ty: <bool as Modeled>::t, with: None, meta: vec![], docs: vec![] }], meta: vec![], docs: vec![] }, VariantT { name: "W", kind: VK::Tuple, fields: vec![FieldT { name: None, ty: <u8 as Modeled>::t, with: None, meta: vec![], docs: vec![] }], meta: vec![], docs: vec![] }], skipped: vec![], meta: vec![], docs: vec![] }
    }
    fn m(&self) -> M {
        match self {
            Self::V { tuple: x0, variant_matches: x1, new_value: x2, new: x3 } => M::Enum("V".into(), VK::Struct, vec![(Some("tuple".into()), x0.m()), (Some("variant_matches".into()), x1.m()), (Some("new_value".into()), x2.m()), (Some("new".into()), x3.m())]),
            Self::W(x0) => M::Enum("W".into(), VK::Tuple, vec![(None, x0.m())]),
        }
    }
    fn hidden(&self) -> Vec<u8> {
        match self {
            _ => vec![],
        }
    }
    fn vals(n: usize, d: usize) -> Vec<Self> {
        let mut per: Vec<Vec<Self>> = vec![];
        per.push({ let l0 = <String as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); let l1 = <u8 as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); let l2 = <i32 as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); let l3 = <bool as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); combos(&[l0.len(), l1.len(), l2.len(), l3.len()], n.max(1)).into_iter().map(|c: Vec<usize>| Self::V { tuple: l0[c[0]].dup(), variant_matches: l1[c[1]].dup(), new_value: l2[c[2]].dup(), new: l3[c[3]].dup() }).collect::<Vec<Self>>() });
        per.push({ let l0 = <u8 as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); combos(&[l0.len()], n.max(1)).into_iter().map(|c: Vec<usize>| Self::W(l0[c[0]].dup())).collect::<Vec<Self>>() });
        interleave(per, n)
    }
    fn into_v(self) -> Option<Value> { Some(self.into()) }
    fn dup(&self) -> Self {
        match self {
            Self::V { tuple: x0, variant_matches: x1, new_value: x2, new: x3 } => Self::V { tuple: x0.dup(), variant_matches: x1.dup(), new_value: x2.dup(), new: x3.dup() },
            Self::W(x0) => Self::W(x0.dup()),
        }
    }
    fn dfmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        std::fmt::Debug::fmt(self, f)
    }
}

#[allow(dead_code)]
#[derive(Reflect, Clone, Debug)]
pub struct Nasty3S {
    pub graph: String,
    pub iter: u8,
    pub f: i32,
    pub reflect: bool,
}
#[allow(unused_variables, unused_mut, clippy::all)]
impl Modeled for Nasty3S {
    fn t() -> T {
        T::Struct { name: std::any::type_name::<Self>(), fields: vec![FieldT { name: Some("graph"), ty: <String as Modeled>::t, with: None, meta: vec![], docs: vec![] }, FieldT { name: Some("iter"), ty: <u8 as Modeled>::t, with: None, meta: vec![], docs: vec![] }, FieldT { name: Some("f"), ty: <i32 as Modeled>::t, with: None, meta: vec![], docs: vec![] }, FieldT { name: Some("reflect"), ty: <bool as Modeled>::t, with: None, meta: vec![], docs: vec![] }], meta: vec![], docs: vec![] }
    }
    fn m(&self) -> M {
        M::Struct(vec![("graph".to_owned(), self.graph.m()), ("iter".to_owned(), self.iter.m()), ("f".to_owned(), self.f.m()), ("reflect".to_owned(), self.reflect.m())])
    }
    fn hidden(&self) -> Vec<u8> {
        vec![]
    }
    fn vals(n: usize, d: usize) -> Vec<Self> {
        let l0 = <String as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); let l1 = <u8 as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); let l2 = <i32 as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); let l3 = <bool as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); combos(&[l0.len(), l1.len(), l2.len(), l3.len()], n.max(1)).into_iter().map(|c: Vec<usize>| Self { graph: l0[c[0]].dup(), iter: l1[c[1]].dup(), f: l2[c[2]].dup(), reflect: l3[c[3]].dup() }).collect::<Vec<Self>>()
    }
    fn into_v(self) -> Option<Value> { Some(self.into()) }
    fn dup(&self) -> Self {
        Self { graph: self.graph.dup(), iter: self.iter.dup(), f: self.f.dup(), reflect: self.reflect.dup() }
    }
    fn dfmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        std::fmt::Debug::fmt(self, f)
    }
}

#[allow(dead_code)]
#[derive(Reflect, Clone, Debug)]
pub enum Nasty3E {
    V {
        graph: String,
        iter: u8,
        f: i32,
        reflect: bool,
    },
    W,
}
#[allow(unused_variables, unused_mut, clippy::all)]
impl Modeled for Nasty3E {
    fn t() -> T {
        T::Enum { name: std::any::type_name::<Self>(), variants: vec![VariantT { name: "V", kind: VK::Struct, fields: vec![FieldT { name: Some("graph"), ty: <String as Modeled>::t, with: None, meta: vec![], docs: vec![] }, FieldT { name: Some("iter"), ty: <u8 as Modeled>::t, with: None, meta: vec![], docs: vec![] }, FieldT { name: Some("f"), ty: <i32 as Modeled>::t, with: None, meta: vec![], docs: vec![] }, FieldT { name: Some("reflect"), ty: <bool as Modeled>::t, with: None, meta: vec![], docs: vec![] }], meta: vec![], docs: vec![] }, VariantT { name: "W", kind: VK::Unit, fields: vec![], meta: vec![], docs: vec![] }], skipped: vec![], meta: vec![], docs: vec![] }
    }
    fn m(&self) -> M {
        match self {
            Self::V { graph: x0, iter: x1, f: x2, reflect: x3 } => M::Enum("V".into(), VK::Struct, vec![(Some("graph".into()), x0.m()), (Some("iter".into()), x1.m()), (Some("f".into()), x2.m()), (Some("reflect".into()), x3.m())]),
            Self::W => M::Enum("W".into(), VK::Unit, vec![]),
        }
    }
    fn hidden(&self) -> Vec<u8> {
        match self {
            _ => vec![],
        }
    }
    fn vals(n: usize, d: usize) -> Vec<Self> {
        let mut per: Vec<Vec<Self>> = vec![];
        per.push({ let l0 = <String as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); let l1 = <u8 as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); let l2 = <i32 as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); let l3 = <bool as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); combos(&[l0.len(), l1.len(), l2.len(), l3.len()], n.max(1)).into_iter().map(|c: Vec<usize>| Self::V { graph: l0[c[0]].dup(), iter: l1[c[1]].dup(), f: l2[c[2]].dup(), reflect: l3[c[3]].dup() }).collect::<Vec<Self>>() });
        per.push(vec![Self::W]);
        interleave(per, n)
    }
    fn into_v(self) -> Option<Value> { Some(self.into()) }
    fn dup(&self) -> Self {
        match self {
            Self::V { graph: x0, iter: x1, f: x2, reflect: x3 } => Self::V { graph: x0.dup(), iter: x1.dup(), f: x2.dup(), reflect: x3.dup() },
            Self::W => Self::W,
        }
    }
    fn dfmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        std::fmt::Debug::fmt(self, f)
    }
}

#[allow(dead_code)]
#[derive(Reflect, Debug)]
#[reflect(opt_out(Clone))]
pub enum Nasty3K {
    V {
        graph: String,
        iter: u8,
        f: i32,
        reflect: bool,
    },
    W(
        u8,
    ),
}
#[allow(unused_variables, unused_mut, clippy::all)]
impl Modeled for Nasty3K {
    fn t() -> T {
        T::Enum { name: std::any::type_name::<Self>(), variants: vec![VariantT { name: "V", kind: VK::Struct, fields: vec![FieldT { name: Some("graph"), ty: <String as Modeled>::t, with: None, meta: vec![], docs: vec![] }, FieldT { name: Some("iter"), ty: <u8 as Modeled>::t, with: None, meta: vec![], docs: vec![] }, FieldT { name: Some("f"), ty: <i32 as Modeled>::t, with: None, meta: vec![], docs: vec![] }, FieldT { name: Some("reflect"), ty: <bool as Modeled>::t, with: None, meta: vec![], docs: vec![] }], meta: vec![], docs: vec![] }, VariantT { name: "W", kind: VK::Tuple, fields: vec![FieldT { name: None, ty: <u8 as Modeled>::t, with: None, meta: vec![], docs: vec![] }], meta: vec![], docs: vec![] }], skipped: vec![], meta: vec![], docs: vec![] }
    }
    fn m(&self) -> M {
        match self {
            Self::V { graph: x0, iter: x1, f: x2, reflect: x3 } => M::Enum("V".into(), VK::Struct, vec![(Some("graph".into()), x0.m()), (Some("iter".into()), x1.m()), (Some("f".into()), x2.m()), (Some("reflect".into()), x3.m())]),
            Self::W(x0) => M::Enum("W".into(), VK::Tuple, vec![(None, x0.m())]),
        }
    }
    fn hidden(&self) -> Vec<u8> {
        match self {
            _ => vec![],
        }
    }
    fn vals(n: usize, d: usize) -> Vec<Self> {
        let mut per: Vec<Vec<Self>> = vec![];
        per.push({ let l0 = <String as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); let l1 = <u8 as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); let l2 = <i32 as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); let l3 = <bool as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); combos(&[l0.len(), l1.len(), l2.len(), l3.len()], n.max(1)).into_iter().map(|c: Vec<usize>| Self::V { graph: l0[c[0]].dup(), iter: l1[c[1]].dup(), f: l2[c[2]].dup(), reflect: l3[c[3]].dup() }).collect::<Vec<Self>>() });
        per.push({ let l0 = <u8 as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); combos(&[l0.len()], n.max(1)).into_iter().map(|c: Vec<usize>| Self::W(l0[c[0]].dup())).collect::<Vec<Self>>() });
        interleave(per, n)
    }
    fn into_v(self) -> Option<Value> { Some(self.into()) }
    fn dup(&self) -> Self {
        match self {
            Self::V { graph: x0, iter: x1, f: x2, reflect: x3 } => Self::V { graph: x0.dup(), iter: x1.dup(), f: x2.dup(), reflect: x3.dup() },
            Self::W(x0) => Self::W(x0.dup()),
        }
    }
    fn dfmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        std::fmt::Debug::fmt(self, f)
    }
}

#[allow(dead_code)]
#[derive(Reflect, Clone, Debug)]
pub struct Nasty4S {
    pub other: String,
    pub this: u8,
    pub variants: i32,
    pub out: bool,
}
#[allow(unused_variables, unused_mut, clippy::all)]
impl Modeled for Nasty4S {
    fn t() -> T {
        T::Struct { name: std::any::type_name::<Self>(), fields: vec![FieldT { name: Some("other"), ty: <String as Modeled>::t, with: None, meta: vec![], docs: vec![] }, FieldT { name: Some("this"), ty: <u8 as Modeled>::t, with: None, meta: vec![], docs: vec![] }, FieldT { name: Some("variants"), ty: <i32 as Modeled>::t, with: None, meta: vec![], docs: vec![] }, FieldT { name: Some("out"), ty: <bool as Modeled>::t, with: None, meta: vec![], docs: vec![] }], meta: vec![], docs: vec![] }
    }
    fn m(&self) -> M {
        M::Struct(vec![("other".to_owned(), self.other.m()), ("this".to_owned(), self.this.m()), ("variants".to_owned(), self.variants.m()), ("out".to_owned(), self.out.m())])
    }
    fn hidden(&self) -> Vec<u8> {
        vec![]
    }
    fn vals(n: usize, d: usize) -> Vec<Self> {
        let l0 = <String as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); let l1 = <u8 as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); let l2 = <i32 as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); let l3 = <bool as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); combos(&[l0.len(), l1.len(), l2.len(), l3.len()], n.max(1)).into_iter().map(|c: Vec<usize>| Self { other: l0[c[0]].dup(), this: l1[c[1]].dup(), variants: l2[c[2]].dup(), out: l3[c[3]].dup() }).collect::<Vec<Self>>()
    }
    fn into_v(self) -> Option<Value> { Some(self.into()) }
    fn dup(&self) -> Self {
        Self { other: self.other.dup(), this: self.this.dup(), variants: self.variants.dup(), out: self.out.dup() }
    }
    fn dfmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        std::fmt::Debug::fmt(self, f)
    }
}

#[allow(dead_code)]
#[derive(Reflect, Clone, Debug)]
pub enum Nasty4E {
    V {
        other: String,
        this: u8,
        variants: i32,
        out: bool,
    },
    W,
}
#[allow(unused_variables, unused_mut, clippy::all)]
impl Modeled for Nasty4E {
    fn t() -> T {
        T::Enum { name: std::any::type_name::<Self>(), variants: vec![VariantT { name: "V", kind: VK::Struct, fields: vec![FieldT { name: Some("other"), ty: <String as Modeled>::t, with: None, meta: vec![], docs: vec![] }, FieldT { name: Some("this"), ty: <u8 as Modeled>::t, with: None, meta: vec![], docs: vec![] }, FieldT { name: Some("variants"), ty: <i32 as Modeled>::t, with: None, meta: vec![], docs: vec![] }, FieldT { name: Some("out"), ty: <bool as Modeled>::t, with: None, meta: vec![], docs: vec![] }], meta: vec![], docs: vec![] }, VariantT { name: "W", kind: VK::Unit, fields: vec![], meta: vec![], docs: vec![] }], skipped: vec![], meta: vec![], docs: vec![] }
    }
    fn m(&self) -> M {
        match self {
            Self::V { other: x0, this: x1, variants: x2, out: x3 } => M::Enum("V".into(), VK::Struct, vec![(Some("other".into()), x0.m()), (Some("this".into()), x1.m()), (Some("variants".into()), x2.m()), (Some("out".into()), x3.m())]),
            Self::W => M::Enum("W".into(), VK::Unit, vec![]),
        }
    }
    fn hidden(&self) -> Vec<u8> {
        match self {
            _ => vec![],
        }
    }
    fn vals(n: usize, d: usize) -> Vec<Self> {
        let mut per: Vec<Vec<Self>> = vec![];
        per.push({ let l0 = <String as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); let l1 = <u8 as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); let l2 = <i32 as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); let l3 = <bool as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); combos(&[l0.len(), l1.len(), l2.len(), l3.len()], n.max(1)).into_iter().map(|c: Vec<usize>| Self::V { other: l0[c[0]].dup(), this: l1[c[1]].dup(), variants: l2[c[2]].dup(), out: l3[c[3]].dup() }).collect::<Vec<Self>>() });
        per.push(vec![Self::W]);
        interleave(per, n)
    }
    fn into_v(self) -> Option<Value> { Some(self.into()) }
    fn dup(&self) -> Self {
        match self {
            Self::V { other: x0, this: x1, variants: x2, out: x3 } => Self::V { other: x0.dup(), this: x1.dup(), variants: x2.dup(), out: x3.dup() },
            Self::W => Self::W,
        }
    }
    fn dfmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        std::fmt::Debug::fmt(self, f)
    }
}

#[allow(dead_code)]
#[derive(Reflect, Debug)]
#[reflect(opt_out(Clone))]
pub enum Nasty4K {
    V {
        other: String,
        this: u8,
        variants: i32,
        out: bool,
    },
    W(
        u8,
    ),
}
#[allow(unused_variables, unused_mut, clippy::all)]
impl Modeled for Nasty4K {
    fn t() -> T {
        T::Enum { name: std::any::type_name::<Self>(), variants: vec![VariantT { name: "V", kind: VK::Struct, fields: vec![FieldT { name: Some("other"), ty: <String as Modeled>::t, with: None, meta: vec![], docs: vec![] }, FieldT { name: Some("this"), ty: <u8 as Modeled>::t, with: None, meta: vec![], docs: vec![] }, FieldT { name: Some("variants"), ty: <i32 as Modeled>::t, with: None, meta: vec![], docs: vec![] }, FieldT { name: Some("out"), ty: <bool as Modeled>::t, with: None, meta: vec![], docs: vec![] }], meta: vec![], docs: vec![] }, VariantT { name: "W", kind: VK::Tuple, fields: vec![FieldT { name: None, ty: <u8 as Modeled>::t, with: None, meta: vec![], docs: vec![] }], meta: vec![], docs: vec![] }], skipped: vec![], meta: vec![], docs: vec![] }
    }
    fn m(&self) -> M {
        match self {
            Self::V { other: x0, this: x1, variants: x2, out: x3 } => M::Enum("V".into(), VK::Struct, vec![(Some("other".into()), x0.m()), (Some("this".into()), x1.m()), (Some("variants".into()), x2.m()), (Some("out".into()), x3.m())]),
            Self::W(x0) => M::Enum("W".into(), VK::Tuple, vec![(None, x0.m())]),
        }
    }
    fn hidden(&self) -> Vec<u8> {
        match self {
            _ => vec![],
        }
    }
    fn vals(n: usize, d: usize) -> Vec<Self> {
        let mut per: Vec<Vec<Self>> = vec![];
        per.push({ let l0 = <String as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); let l1 = <u8 as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); let l2 = <i32 as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); let l3 = <bool as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); combos(&[l0.len(), l1.len(), l2.len(), l3.len()], n.max(1)).into_iter().map(|c: Vec<usize>| Self::V { other: l0[c[0]].dup(), this: l1[c[1]].dup(), variants: l2[c[2]].dup(), out: l3[c[3]].dup() }).collect::<Vec<Self>>() });
        per.push({ let l0 = <u8 as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); combos(&[l0.len()], n.max(1)).into_iter().map(|c: Vec<usize>| Self::W(l0[c[0]].dup())).collect::<Vec<Self>>() });
        interleave(per, n)
    }
    fn into_v(self) -> Option<Value> { Some(self.into()) }
    fn dup(&self) -> Self {
        match self {
            Self::V { other: x0, this: x1, variants: x2, out: x3 } => Self::V { other: x0.dup(), this: x1.dup(), variants: x2.dup(), out: x3.dup() },
            Self::W(x0) => Self::W(x0.dup()),
        }
    }
    fn dfmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        std::fmt::Debug::fmt(self, f)
    }
}

#[allow(dead_code)]
#[derive(Reflect, Clone, Debug)]
pub struct Nasty5S {
    pub idx: String,
    pub key: u8,
    pub r#type: i32,
    pub field_0: bool,
}
#[allow(unused_variables, unused_mut, clippy::all)]
impl Modeled for Nasty5S {
    fn t() -> T {
        T::Struct { name: std::any::type_name::<Self>(), fields: vec![FieldT { name: Some("idx"), ty: <String as Modeled>::t, with: None, meta: vec![], docs: vec![] }, FieldT { name: Some("key"), ty: <u8 as Modeled>::t, with: None, meta: vec![], docs: vec![] }, FieldT { name: Some("r#type"), ty: <i32 as Modeled>::t, with: None, meta: vec![], docs: vec![] }, FieldT { name: Some("field_0"), ty: <bool as Modeled>::t, with: None, meta: vec![], docs: vec![] }], meta: vec![], docs: vec![] }
    }
    fn m(&self) -> M {
        M::Struct(vec![("idx".to_owned(), self.idx.m()), ("key".to_owned(), self.key.m()), ("r#type".to_owned(), self.r#type.m()), ("field_0".to_owned(), self.field_0.m())])
    }
    fn hidden(&self) -> Vec<u8> {
        vec![]
    }
    fn vals(n: usize, d: usize) -> Vec<Self> {
        let l0 = <String as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); let l1 = <u8 as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); let l2 = <i32 as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); let l3 = <bool as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); combos(&[l0.len(), l1.len(), l2.len(), l3.len()], n.max(1)).into_iter().map(|c: Vec<usize>| Self { idx: l0[c[0]].dup(), key: l1[c[1]].dup(), r#type: l2[c[2]].dup(), field_0: l3[c[3]].dup() }).collect::<Vec<Self>>()
    }
    fn into_v(self) -> Option<Value> { Some(self.into()) }
    fn dup(&self) -> Self {
        Self { idx: self.idx.dup(), key: self.key.dup(), r#type: self.r#type.dup(), field_0: self.field_0.dup() }
    }
    fn dfmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        std::fmt::Debug::fmt(self, f)
    }
}

#[allow(dead_code)]
#[derive(Reflect, Clone, Debug)]
pub enum Nasty5E {
    V {
        idx: String,
        key: u8,
        r#type: i32,
        field_0: bool,
    },
    W,
}
#[allow(unused_variables, unused_mut, clippy::all)]
impl Modeled for Nasty5E {
    fn t() -> T {
        T::Enum { name: std::any::type_name::<Self>(), variants: vec![VariantT { name: "V", kind: VK::Struct, fields: vec![FieldT { name: Some("idx"), ty: <String as Modeled>::t, with: None, meta: vec![], docs: vec![] }, FieldT { name: Some("key"), ty: <u8 as Modeled>::t, with: None, meta: vec![], docs: vec![] }, FieldT { name: Some("r#type"), ty: <i32 as Modeled>::t, with: None, meta: vec![], docs: vec![] }, FieldT { name: Some("field_0"), ty: <bool as Modeled>::t, with: None, meta: vec![], docs: vec![] }], meta: vec![], docs: vec![] }, VariantT { name: "W", kind: VK::Unit, fields: vec![], meta: vec![], docs: vec![] }], skipped: vec![], meta: vec![], docs: vec![] }
    }
    fn m(&self) -> M {
        match self {
            Self::V { idx: x0, key: x1, r#type: x2, field_0: x3 } => M::Enum("V".into(), VK::Struct, vec![(Some("idx".into()), x0.m()), (Some("key".into()), x1.m()), (Some("r#type".into()), x2.m()), (Some("field_0".into()), x3.m())]),
            Self::W => M::Enum("W".into(), VK::Unit, vec![]),
        }
    }
    fn hidden(&self) -> Vec<u8> {
        match self {
            _ => vec![],
        }
    }
    fn vals(n: usize, d: usize) -> Vec<Self> {
        let mut per: Vec<Vec<Self>> = vec![];
        per.push({ let l0 = <String as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); let l1 = <u8 as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); let l2 = <i32 as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); let l3 = <bool as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); combos(&[l0.len(), l1.len(), l2.len(), l3.len()], n.max(1)).into_iter().map(|c: Vec<usize>| Self::V { idx: l0[c[0]].dup(), key: l1[c[1]].dup(), r#type: l2[c[2]].dup(), field_0: l3[c[3]].dup() }).collect::<Vec<Self>>() });
        per.push(vec![Self::W]);
        interleave(per, n)
    }
    fn into_v(self) -> Option<Value> { Some(self.into()) }
    fn dup(&self) -> Self {
        match self {
            Self::V { idx: x0, key: x1, r#type: x2, field_0: x3 } => Self::V { idx: x0.dup(), key: x1.dup(), r#type: x2.dup(), field_0: x3.dup() },
            Self::W => Self::W,
        }
    }
    fn dfmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        std::fmt::Debug::fmt(self, f)
    }
}

#[allow(dead_code)]
#[derive(Reflect, Debug)]
#[reflect(opt_out(Clone))]
pub enum Nasty5K {
    V {
        idx: String,
        key: u8,
        r#type: i32,
        field_0: bool,
    },
    W(
        u8,
    ),
}
#[allow(unused_variables, unused_mut, clippy::all)]
impl Modeled for Nasty5K {
    fn t() -> T {
        T::Enum { name: std::any::type_name::<Self>(), variants: vec![VariantT { name: "V", kind: VK::Struct, fields: vec![FieldT { name: Some("idx"), ty: <String as Modeled>::t, with: None, meta: vec![], docs: vec![] }, FieldT { name: Some("key"), ty: <u8 as Modeled>::t, with: None, meta: vec![], docs: vec![] }, FieldT { name: Some("r#type"), ty: <i32 as Modeled>::t, with: None, meta: vec![], docs: vec![] }, FieldT { name: Some("field_0"), ty: <bool as Modeled>::t, with: None, meta: vec![], docs: vec![] }], meta: vec![], docs: vec![] }, VariantT { name: "W", kind: VK::Tuple, fields: vec![FieldT { name: None, ty: <u8 as Modeled>::t, with: None, meta: vec![], docs: vec![] }], meta: vec![], docs: vec![] }], skipped: vec![], meta: vec![], docs: vec![] }
    }
    fn m(&self) -> M {
        match self {
            Self::V { idx: x0, key: x1, r#type: x2, field_0: x3 } => M::Enum("V".into(), VK::Struct, vec![(Some("idx".into()), x0.m()), (Some("key".into()), x1.m()), (Some("r#type".into()), x2.m()), (Some("field_0".into()), x3.m())]),
            Self::W(x0) => M::Enum("W".into(), VK::Tuple, vec![(None, x0.m())]),
        }
    }
    fn hidden(&self) -> Vec<u8> {
        match self {
            _ => vec![],
        }
    }
    fn vals(n: usize, d: usize) -> Vec<Self> {
        let mut per: Vec<Vec<Self>> = vec![];
        per.push({ let l0 = <String as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); let l1 = <u8 as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); let l2 = <i32 as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); let l3 = <bool as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); combos(&[l0.len(), l1.len(), l2.len(), l3.len()], n.max(1)).into_iter().map(|c: Vec<usize>| Self::V { idx: l0[c[0]].dup(), key: l1[c[1]].dup(), r#type: l2[c[2]].dup(), field_0: l3[c[3]].dup() }).collect::<Vec<Self>>() });
        per.push({ let l0 = <u8 as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); combos(&[l0.len()], n.max(1)).into_iter().map(|c: Vec<usize>| Self::W(l0[c[0]].dup())).collect::<Vec<Self>>() });
        interleave(per, n)
    }
    fn into_v(self) -> Option<Value> { Some(self.into()) }
    fn dup(&self) -> Self {
        match self {
            Self::V { idx: x0, key: x1, r#type: x2, field_0: x3 } => Self::V { idx: x0.dup(), key: x1.dup(), r#type: x2.dup(), field_0: x3.dup() },
            Self::W(x0) => Self::W(x0.dup()),
        }
    }
    fn dfmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        std::fmt::Debug::fmt(self, f)
    }
}

#[allow(dead_code)]
#[derive(Reflect, Clone, Debug)]
pub struct Nasty6S {
    pub _0: String,
    pub ident: u8,
    pub meta: i32,
    pub patch: bool,
}
#[allow(unused_variables, unused_mut, clippy::all)]
impl Modeled for Nasty6S {
    fn t() -> T {
        T::Struct { name: std::any::type_name::<Self>(), fields: vec![FieldT { name: Some("_0"), ty: <String as Modeled>::t, with: None, meta: vec![], docs: vec![] }, FieldT { name: Some("ident"), ty: <u8 as Modeled>::t, with: None, meta: vec![], docs: vec![] }, FieldT { name: Some("meta"), ty: <i32 as Modeled>::t, with: None, meta: vec![], docs: vec![] }, FieldT { name: Some("patch"), ty: <bool as Modeled>::t, with: None, meta: vec![], docs: vec![] }], meta: vec![], docs: vec![] }
    }
    fn m(&self) -> M {
        M::Struct(vec![("_0".to_owned(), self._0.m()), ("ident".to_owned(), self.ident.m()), ("meta".to_owned(), self.meta.m()), ("patch".to_owned(), self.patch.m())])
    }
    fn hidden(&self) -> Vec<u8> {
        vec![]
    }
    fn vals(n: usize, d: usize) -> Vec<Self> {
        let l0 = <String as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); let l1 = <u8 as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); let l2 = <i32 as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); let l3 = <bool as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); combos(&[l0.len(), l1.len(), l2.len(), l3.len()], n.max(1)).into_iter().map(|c: Vec<usize>| Self { _0: l0[c[0]].dup(), ident: l1[c[1]].dup(), meta: l2[c[2]].dup(), patch: l3[c[3]].dup() }).collect::<Vec<Self>>()
    }
    fn into_v(self) -> Option<Value> { Some(self.into()) }
    fn dup(&self) -> Self {
        Self { _0: self._0.dup(), ident: self.ident.dup(), meta: self.meta.dup(), patch: self.patch.dup() }
    }
    fn dfmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        std::fmt::Debug::fmt(self, f)
    }
}

#[allow(dead_code)]
#[derive(Reflect, Clone, Debug)]
pub enum Nasty6E {
    V {
        _0: String,
        ident: u8,
        meta: i32,
        patch: bool,
    },
    W,
}
#[allow(unused_variables, unused_mut, clippy::all)]
impl Modeled for Nasty6E {
    fn t() -> T {
        T::Enum { name: std::any::type_name::<Self>(), variants: vec![VariantT { name: "V", kind: VK::Struct, fields: vec![FieldT { name: Some("_0"), ty: <String as Modeled>::t, with: None, meta: vec![], docs: vec![] }, FieldT { name: Some("ident"), ty: <u8 as Modeled>::t, with: None, meta: vec![], docs: vec![] }, FieldT { name: Some("meta"), ty: <i32 as Modeled>::t, with: None, meta: vec![], docs: vec![] }, FieldT { name: Some("patch"), ty: <bool as Modeled>::t, with: None, meta: vec![], docs: vec![] }], meta: vec![], docs: vec![] }, VariantT { name: "W", kind: VK::Unit, fields: vec![], meta: vec![], docs: vec![] }], skipped: vec![], meta: vec![], docs: vec![] }
    }
    fn m(&self) -> M {
        match self {
            Self::V { _0: x0, ident: x1, meta: x2, patch: x3 } => M::Enum("V".into(), VK::Struct, vec![(Some("_0".into()), x0.m()), (Some("ident".into()), x1.m()), (Some("meta".into()), x2.m()), (Some("patch".into()), x3.m())]),
            Self::W => M::Enum("W".into(), VK::Unit, vec![]),
        }
    }
    fn hidden(&self) -> Vec<u8> {
        match self {
            _ => vec![],
        }
    }
    fn vals(n: usize, d: usize) -> Vec<Self> {
        let mut per: Vec<Vec<Self>> = vec![];
        per.push({ let l0 = <String as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); let l1 = <u8 as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); let l2 = <i32 as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); let l3 = <bool as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); combos(&[l0.len(), l1.len(), l2.len(), l3.len()], n.max(1)).into_iter().map(|c: Vec<usize>| Self::V { _0: l0[c[0]].dup(), ident: l1[c[1]].dup(), meta: l2[c[2]].dup(), patch: l3[c[3]].dup() }).collect::<Vec<Self>>() });
        per.push(vec![Self::W]);
        interleave(per, n)
    }
    fn into_v(self) -> Option<Value> { Some(self.into()) }
    fn dup(&self) -> Self {
        match self {
            Self::V { _0: x0, ident: x1, meta: x2, patch: x3 } => Self::V { _0: x0.dup(), ident: x1.dup(), meta: x2.dup(), patch: x3.dup() },
            Self::W => Self::W,
        }
    }
    fn dfmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        std::fmt::Debug::fmt(self, f)
    }
}

#[allow(dead_code)]
#[derive(Reflect, Debug)]
#[reflect(opt_out(Clone))]
pub enum Nasty6K {
    V {
        _0: String,
        ident: u8,
        meta: i32,
        patch: bool,
    },
    W(
        u8,
    ),
}
#[allow(unused_variables, unused_mut, clippy::all)]
impl Modeled for Nasty6K {
    fn t() -> T {
        T::Enum { name: std::any::type_name::<Self>(), variants: vec![VariantT { name: "V", kind: VK::Struct, fields: vec![FieldT { name: Some("_0"), ty: <String as Modeled>::t, with: None, meta: vec![], docs: vec![] }, FieldT { name: Some("ident"), ty: <u8 as Modeled>::t, with: None, meta: vec![], docs: vec![] }, FieldT { name: Some("meta"), ty: <i32 as Modeled>::t, with: None, meta: vec![], docs: vec![] }, FieldT { name: Some("patch"), ty: <bool as Modeled>::t, with: None, meta: vec![], docs: vec![] }], meta: vec![], docs: vec![] }, VariantT { name: "W", kind: VK::Tuple, fields: vec![FieldT { name: None, ty: <u8 as Modeled>::t, with: None, meta: vec![], docs: vec![] }], meta: vec![], docs: vec![] }], skipped: vec![], meta: vec![], docs: vec![] }
    }
    fn m(&self) -> M {
        match self {
            Self::V { _0: x0, ident: x1, meta: x2, patch: x3 } => M::Enum("V".into(), VK::Struct, vec![(Some("_0".into()), x0.m()), (Some("ident".into()), x1.m()), (Some("meta".into()), x2.m()), (Some("patch".into()), x3.m())]),
            Self::W(x0) => M::Enum("W".into(), VK::Tuple, vec![(None, x0.m())]),
        }
    }
    fn hidden(&self) -> Vec<u8> {
        match self {
            _ => vec![],
        }
    }
    fn vals(n: usize, d: usize) -> Vec<Self> {
        let mut per: Vec<Vec<Self>> = vec![];
        per.push({ let l0 = <String as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); let l1 = <u8 as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); let l2 = <i32 as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); let l3 = <bool as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); combos(&[l0.len(), l1.len(), l2.len(), l3.len()], n.max(1)).into_iter().map(|c: Vec<usize>| Self::V { _0: l0[c[0]].dup(), ident: l1[c[1]].dup(), meta: l2[c[2]].dup(), patch: l3[c[3]].dup() }).collect::<Vec<Self>>() });
        per.push({ let l0 = <u8 as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); combos(&[l0.len()], n.max(1)).into_iter().map(|c: Vec<usize>| Self::W(l0[c[0]].dup())).collect::<Vec<Self>>() });
        interleave(per, n)
    }
    fn into_v(self) -> Option<Value> { Some(self.into()) }
    fn dup(&self) -> Self {
        match self {
            Self::V { _0: x0, ident: x1, meta: x2, patch: x3 } => Self::V { _0: x0.dup(), ident: x1.dup(), meta: x2.dup(), patch: x3.dup() },
            Self::W(x0) => Self::W(x0.dup()),
        }
    }
    fn dfmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        std::fmt::Debug::fmt(self, f)
    }
}

#[allow(dead_code)]
#[derive(Reflect, Clone, Debug)]
pub struct Nasty7S {
    pub to_value: String,
    pub as_any: u8,
    pub ty: i32,
    pub result: bool,
}
#[allow(unused_variables, unused_mut, clippy::all)]
impl Modeled for Nasty7S {
    fn t() -> T {
        T::Struct { name: std::any::type_name::<Self>(), fields: vec![FieldT { name: Some("to_value"), ty: <String as Modeled>::t, with: None, meta: vec![], docs: vec![] }, FieldT { name: Some("as_any"), ty: <u8 as Modeled>::t, with: None, meta: vec![], docs: vec![] }, FieldT { name: Some("ty"), ty: <i32 as Modeled>::t, with: None, meta: vec![], docs: vec![] }, FieldT { name: Some("result"), ty: <bool as Modeled>::t, with: None, meta: vec![], docs: vec![] }], meta: vec![], docs: vec![] }
    }
    fn m(&self) -> M {
        M::Struct(vec![("to_value".to_owned(), self.to_value.m()), ("as_any".to_owned(), self.as_any.m()), ("ty".to_owned(), self.ty.m()), ("result".to_owned(), self.result.m())])
    }
    fn hidden(&self) -> Vec<u8> {
        vec![]
    }
    fn vals(n: usize, d: usize) -> Vec<Self> {
        let l0 = <String as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); let l1 = <u8 as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); let l2 = <i32 as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); let l3 = <bool as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); combos(&[l0.len(), l1.len(), l2.len(), l3.len()], n.max(1)).into_iter().map(|c: Vec<usize>| Self { to_value: l0[c[0]].dup(), as_any: l1[c[1]].dup(), ty: l2[c[2]].dup(), result: l3[c[3]].dup() }).collect::<Vec<Self>>()
    }
    fn into_v(self) -> Option<Value> { Some(self.into()) }
    fn dup(&self) -> Self {
        Self { to_value: self.to_value.dup(), as_any: self.as_any.dup(), ty: self.ty.dup(), result: self.result.dup() }
    }
    fn dfmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        std::fmt::Debug::fmt(self, f)
    }
}

#[allow(dead_code)]
#[derive(Reflect, Clone, Debug)]
pub enum Nasty7E {
    V {
        to_value: String,
        as_any: u8,
        ty: i32,
        result: bool,
    },
    W,
}
#[allow(unused_variables, unused_mut, clippy::all)]
impl Modeled for Nasty7E {
    fn t() -> T {
        T::Enum { name: std::any::type_name::<Self>(), variants: vec![VariantT { name: "V", kind: VK::Struct, fields: vec![FieldT { name: Some("to_value"), ty: <String as Modeled>::t, with: None, meta: vec![], docs: vec![] }, FieldT { name: Some("as_any"), ty: <u8 as Modeled>::t, with: None, meta: vec![], docs: vec![] }, FieldT { name: Some("ty"), ty: <i32 as Modeled>::t, with: None, meta: vec![], docs: vec![] }, FieldT { name: Some("result"), ty: <bool as Modeled>::t, with: None, meta: vec![], docs: vec![] }], meta: vec![], docs: vec![] }, VariantT { name: "W", kind: VK::Unit, fields: vec![], meta: vec![], docs: vec![] }], skipped: vec![], meta: vec![], docs: vec![] }
    }
    fn m(&self) -> M {
        match self {
            Self::V { to_value: x0, as_any: x1, ty: x2, result: x3 } => M::Enum("V".into(), VK::Struct, vec![(Some("to_value".into()), x0.m()), (Some("as_any".into()), x1.m()), (Some("ty".into()), x2.m()), (Some("result".into()), x3.m())]),
            Self::W => M::Enum("W".into(), VK::Unit, vec![]),
        }
    }
    fn hidden(&self) -> Vec<u8> {
        match self {
            _ => vec![],
        }
    }
    fn vals(n: usize, d: usize) -> Vec<Self> {
        let mut per: Vec<Vec<Self>> = vec![];
        per.push({ let l0 = <String as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); let l1 = <u8 as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); let l2 = <i32 as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); let l3 = <bool as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); combos(&[l0.len(), l1.len(), l2.len(), l3.len()], n.max(1)).into_iter().map(|c: Vec<usize>| Self::V { to_value: l0[c[0]].dup(), as_any: l1[c[1]].dup(), ty: l2[c[2]].dup(), result: l3[c[3]].dup() }).collect::<Vec<Self>>() });
        per.push(vec![Self::W]);
        interleave(per, n)
    }
    fn into_v(self) -> Option<Value> { Some(self.into()) }
    fn dup(&self) -> Self {
        match self {
            Self::V { to_value: x0, as_any: x1, ty: x2, result: x3 } => Self::V { to_value: x0.dup(), as_any: x1.dup(), ty: x2.dup(), result: x3.dup() },
            Self::W => Self::W,
        }
    }
    fn dfmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        std::fmt::Debug::fmt(self, f)
    }
}

#[allow(dead_code)]
#[derive(Reflect, Debug)]
#[reflect(opt_out(Clone))]
pub enum Nasty7K {
    V {
        to_value: String,
        as_any: u8,
        ty: i32,
        result: bool,
    },
    W(
        u8,
    ),
}
#[allow(unused_variables, unused_mut, clippy::all)]
impl Modeled for Nasty7K {
    fn t() -> T {
        T::Enum { name: std::any::type_name::<Self>(), variants: vec![VariantT { name: "V", kind: VK::Struct, fields: vec![FieldT { name: Some("to_value"), ty: <String as Modeled>::t, with: None, meta: vec![], docs: vec![] }, FieldT { name: Some("as_any"), ty: <u8 as Modeled>::t, with: None, meta: vec![], docs: vec![] }, FieldT { name: Some("ty"), ty: <i32 as Modeled>::t, with: None, meta: vec![], docs: vec![] }, FieldT { name: Some("result"), ty: <bool as Modeled>::t, with: None, meta: vec![], docs: vec![] }], meta: vec![], docs: vec![] }, VariantT { name: "W", kind: VK::Tuple, fields: vec![FieldT { name: None, ty: <u8 as Modeled>::t, with: None, meta: vec![], docs: vec![] }], meta: vec![], docs: vec![] }], skipped: vec![], meta: vec![], docs: vec![] }
    }
    fn m(&self) -> M {
        match self {
            Self::V { to_value: x0, as_any: x1, ty: x2, result: x3 } => M::Enum("V".into(), VK::Struct, vec![(Some("to_value".into()), x0.m()), (Some("as_any".into()), x1.m()), (Some("ty".into()), x2.m()), (Some("result".into()), x3.m())]),
            Self::W(x0) => M::Enum("W".into(), VK::Tuple, vec![(None, x0.m())]),
        }
    }
    fn hidden(&self) -> Vec<u8> {
        match self {
            _ => vec![],
        }
    }
    fn vals(n: usize, d: usize) -> Vec<Self> {
        let mut per: Vec<Vec<Self>> = vec![];
        per.push({ let l0 = <String as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); let l1 = <u8 as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); let l2 = <i32 as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); let l3 = <bool as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); combos(&[l0.len(), l1.len(), l2.len(), l3.len()], n.max(1)).into_iter().map(|c: Vec<usize>| Self::V { to_value: l0[c[0]].dup(), as_any: l1[c[1]].dup(), ty: l2[c[2]].dup(), result: l3[c[3]].dup() }).collect::<Vec<Self>>() });
        per.push({ let l0 = <u8 as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); combos(&[l0.len()], n.max(1)).into_iter().map(|c: Vec<usize>| Self::W(l0[c[0]].dup())).collect::<Vec<Self>>() });
        interleave(per, n)
    }
    fn into_v(self) -> Option<Value> { Some(self.into()) }
    fn dup(&self) -> Self {
        match self {
            Self::V { to_value: x0, as_any: x1, ty: x2, result: x3 } => Self::V { to_value: x0.dup(), as_any: x1.dup(), ty: x2.dup(), result: x3.dup() },
            Self::W(x0) => Self::W(x0.dup()),
        }
    }
    fn dfmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        std::fmt::Debug::fmt(self, f)
    }
}

#[allow(dead_code)]
#[derive(Reflect, Clone, Debug)]
pub struct Nasty8S {
    pub len: String,
    pub string: u8,
}
#[allow(unused_variables, unused_mut, clippy::all)]
impl Modeled for Nasty8S {
    fn t() -> T {
        T::Struct { name: std::any::type_name::<Self>(), fields: vec![FieldT { name: Some("len"), ty: <String as Modeled>::t, with: None, meta: vec![], docs: vec![] }, FieldT { name: Some("string"), ty: <u8 as Modeled>::t, with: None, meta: vec![], docs: vec![] }], meta: vec![], docs: vec![] }
    }
    fn m(&self) -> M {
        M::Struct(vec![("len".to_owned(), self.len.m()), ("string".to_owned(), self.string.m())])
    }
    fn hidden(&self) -> Vec<u8> {
        vec![]
    }
    fn vals(n: usize, d: usize) -> Vec<Self> {
        let l0 = <String as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); let l1 = <u8 as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); combos(&[l0.len(), l1.len()], n.max(1)).into_iter().map(|c: Vec<usize>| Self { len: l0[c[0]].dup(), string: l1[c[1]].dup() }).collect::<Vec<Self>>()
    }
    fn into_v(self) -> Option<Value> { Some(self.into()) }
    fn dup(&self) -> Self {
        Self { len: self.len.dup(), string: self.string.dup() }
    }
    fn dfmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        std::fmt::Debug::fmt(self, f)
    }
}

#[allow(dead_code)]
#[derive(Reflect, Clone, Debug)]
pub enum Nasty8E {
    V {
        len: String,
        string: u8,
    },
    W,
}
#[allow(unused_variables, unused_mut, clippy::all)]
impl Modeled for Nasty8E {
    fn t() -> T {
        T::Enum { name: std::any::type_name::<Self>(), variants: vec![VariantT { name: "V", kind: VK::Struct, fields: vec![FieldT { name: Some("len"), ty: <String as Modeled>::t, with: None, meta: vec![], docs: vec![] }, FieldT { name: Some("string"), ty: <u8 as Modeled>::t, with: None, meta: vec![], docs: vec![] }], meta: vec![], docs: vec![] }, VariantT { name: "W", kind: VK::Unit, fields: vec![], meta: vec![], docs: vec![] }], skipped: vec![], meta: vec![], docs: vec![] }
    }
    fn m(&self) -> M {
        match self {
            Self::V { len: x0, string: x1 } => M::Enum("V".into(), VK::Struct, vec![(Some("len".into()), x0.m()), (Some("string".into()), x1.m())]),
            Self::W => M::Enum("W".into(), VK::Unit, vec![]),
        }
    }
    fn hidden(&self) -> Vec<u8> {
        match self {
            _ => vec![],
        }
    }
    fn vals(n: usize, d: usize) -> Vec<Self> {
        let mut per: Vec<Vec<Self>> = vec![];
        per.push({ let l0 = <String as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); let l1 = <u8 as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); combos(&[l0.len(), l1.len()], n.max(1)).into_iter().map(|c: Vec<usize>| Self::V { len: l0[c[0]].dup(), string: l1[c[1]].dup() }).collect::<Vec<Self>>() });
        per.push(vec![Self::W]);
        interleave(per, n)
    }
    fn into_v(self) -> Option<Value> { Some(self.into()) }
    fn dup(&self) -> Self {
        match self {
            Self::V { len: x0, string: x1 } => Self::V { len: x0.dup(), string: x1.dup() },
            Self::W => Self::W,
        }
    }
    fn dfmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        std::fmt::Debug::fmt(self, f)
    }
}

#[allow(dead_code)]
#[derive(Reflect, Debug)]
#[reflect(opt_out(Clone))]
pub enum Nasty8K {
    V {
        len: String,
        string: u8,
    },
    W(
        u8,
    ),
}
#[allow(unused_variables, unused_mut, clippy::all)]
impl Modeled for Nasty8K {
    fn t() -> T {
        T::Enum { name: std::any::type_name::<Self>(), variants: vec![VariantT { name: "V", kind: VK::Struct, fields: vec![FieldT { name: Some("len"), ty: <String as Modeled>::t, with: None, meta: vec![], docs: vec![] }, FieldT { name: Some("string"), ty: <u8 as Modeled>::t, with: None, meta: vec![], docs: vec![] }], meta: vec![], docs: vec![] }, VariantT { name: "W", kind: VK::Tuple, fields: vec![FieldT { name: None, ty: <u8 as Modeled>::t, with: None, meta: vec![], docs: vec![] }], meta: vec![], docs: vec![] }], skipped: vec![], meta: vec![], docs: vec![] }
    }
    fn m(&self) -> M {
        match self {
            Self::V { len: x0, string: x1 } => M::Enum("V".into(), VK::Struct, vec![(Some("len".into()), x0.m()), (Some("string".into()), x1.m())]),
            Self::W(x0) => M::Enum("W".into(), VK::Tuple, vec![(None, x0.m())]),
        }
    }
    fn hidden(&self) -> Vec<u8> {
        match self {
            _ => vec![],
        }
    }
    fn vals(n: usize, d: usize) -> Vec<Self> {
        let mut per: Vec<Vec<Self>> = vec![];
        per.push({ let l0 = <String as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); let l1 = <u8 as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); combos(&[l0.len(), l1.len()], n.max(1)).into_iter().map(|c: Vec<usize>| Self::V { len: l0[c[0]].dup(), string: l1[c[1]].dup() }).collect::<Vec<Self>>() });
        per.push({ let l0 = <u8 as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); combos(&[l0.len()], n.max(1)).into_iter().map(|c: Vec<usize>| Self::W(l0[c[0]].dup())).collect::<Vec<Self>>() });
        interleave(per, n)
    }
    fn into_v(self) -> Option<Value> { Some(self.into()) }
    fn dup(&self) -> Self {
        match self {
            Self::V { len: x0, string: x1 } => Self::V { len: x0.dup(), string: x1.dup() },
            Self::W(x0) => Self::W(x0.dup()),
        }
    }
    fn dfmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        std::fmt::Debug::fmt(self, f)
    }
}

#[allow(dead_code)]
#[derive(Reflect, Clone, Debug)]
pub struct G<X: Modeled + Clone + std::fmt::Debug> {
    pub a: X,
    pub b: u8,
}
#[allow(unused_variables, unused_mut, clippy::all)]
impl<X: Modeled + Clone + std::fmt::Debug> Modeled for G<X> {
    fn t() -> T {
        T::Struct { name: std::any::type_name::<Self>(), fields: vec![FieldT { name: Some("a"), ty: <X as Modeled>::t, with: None, meta: vec![], docs: vec![] }, FieldT { name: Some("b"), ty: <u8 as Modeled>::t, with: None, meta: vec![], docs: vec![] }], meta: vec![], docs: vec![] }
    }
    fn m(&self) -> M {
        M::Struct(vec![("a".to_owned(), self.a.m()), ("b".to_owned(), self.b.m())])
    }
    fn hidden(&self) -> Vec<u8> {
        vec![]
    }
    fn vals(n: usize, d: usize) -> Vec<Self> {
        let l0 = <X as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); let l1 = <u8 as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); combos(&[l0.len(), l1.len()], n.max(1)).into_iter().map(|c: Vec<usize>| Self { a: l0[c[0]].dup(), b: l1[c[1]].dup() }).collect::<Vec<Self>>()
    }
    fn into_v(self) -> Option<Value> { Some(self.into()) }
    fn dup(&self) -> Self {
        Self { a: self.a.dup(), b: self.b.dup() }
    }
    fn dfmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        std::fmt::Debug::fmt(self, f)
    }
}

#[allow(dead_code)]
#[derive(Reflect, Clone, Debug)]
pub struct GT<X: Modeled + Clone + std::fmt::Debug>(
    pub u8,
    pub X,
);
#[allow(unused_variables, unused_mut, clippy::all)]
impl<X: Modeled + Clone + std::fmt::Debug> Modeled for GT<X> {
    fn t() -> T {
        T::TupleStruct { name: std::any::type_name::<Self>(), fields: vec![FieldT { name: None, ty: <u8 as Modeled>::t, with: None, meta: vec![], docs: vec![] }, FieldT { name: None, ty: <X as Modeled>::t, with: None, meta: vec![], docs: vec![] }], meta: vec![], docs: vec![] }
    }
    fn m(&self) -> M {
        M::TupleStruct(vec![self.0.m(), self.1.m()])
    }
    fn hidden(&self) -> Vec<u8> {
        vec![]
    }
    fn vals(n: usize, d: usize) -> Vec<Self> {
        let l0 = <u8 as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); let l1 = <X as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); combos(&[l0.len(), l1.len()], n.max(1)).into_iter().map(|c: Vec<usize>| Self(l0[c[0]].dup(), l1[c[1]].dup())).collect::<Vec<Self>>()
    }
    fn into_v(self) -> Option<Value> { Some(self.into()) }
    fn dup(&self) -> Self {
        Self(self.0.dup(), self.1.dup())
    }
    fn dfmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        std::fmt::Debug::fmt(self, f)
    }
}

#[allow(dead_code)]
#[derive(Reflect, Clone, Debug)]
pub enum GE<X: Modeled + Clone + std::fmt::Debug> {
    A,
    B(
        X,
        u8,
    ),
    C {
        x: X,
    },
}
#[allow(unused_variables, unused_mut, clippy::all)]
impl<X: Modeled + Clone + std::fmt::Debug> Modeled for GE<X> {
    fn t() -> T {
        T::Enum { name: std::any::type_name::<Self>(), variants: vec![VariantT { name: "A", kind: VK::Unit, fields: vec![], meta: vec![], docs: vec![] }, VariantT { name: "B", kind: VK::Tuple, fields: vec![FieldT { name: None, ty: <X as Modeled>::t, with: None, meta: vec![], docs: vec![] }, FieldT { name: None, ty: <u8 as Modeled>::t, with: None, meta: vec![], docs: vec![] }], meta: vec![], docs: vec![] }, VariantT { name: "C", kind: VK::Struct, fields: vec![FieldT { name: Some("x"), ty: <X as Modeled>::t, with: None, meta: vec![], docs: vec![] }], meta: vec![], docs: vec![] }], skipped: vec![], meta: vec![], docs: vec![] }
    }
    fn m(&self) -> M {
        match self {
            Self::A => M::Enum("A".into(), VK::Unit, vec![]),
            Self::B(x0, x1) => M::Enum("B".into(), VK::Tuple, vec![(None, x0.m()), (None, x1.m())]),
            Self::C { x: x0 } => M::Enum("C".into(), VK::Struct, vec![(Some("x".into()), x0.m())]),
        }
    }
    fn hidden(&self) -> Vec<u8> {
        match self {
            _ => vec![],
        }
    }
    fn vals(n: usize, d: usize) -> Vec<Self> {
        let mut per: Vec<Vec<Self>> = vec![];
        per.push(vec![Self::A]);
        per.push({ let l0 = <X as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); let l1 = <u8 as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); combos(&[l0.len(), l1.len()], n.max(1)).into_iter().map(|c: Vec<usize>| Self::B(l0[c[0]].dup(), l1[c[1]].dup())).collect::<Vec<Self>>() });
        per.push({ let l0 = <X as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); combos(&[l0.len()], n.max(1)).into_iter().map(|c: Vec<usize>| Self::C { x: l0[c[0]].dup() }).collect::<Vec<Self>>() });
        interleave(per, n)
    }
    fn into_v(self) -> Option<Value> { Some(self.into()) }
    fn dup(&self) -> Self {
        match self {
            Self::A => Self::A,
            Self::B(x0, x1) => Self::B(x0.dup(), x1.dup()),
            Self::C { x: x0 } => Self::C { x: x0.dup() },
        }
    }
    fn dfmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        std::fmt::Debug::fmt(self, f)
    }
}

#[allow(dead_code)]
#[derive(Reflect, Clone, Debug)]
pub struct G2<A, B> where A: Modeled + Clone + std::fmt::Debug, B: Modeled + Clone + std::fmt::Debug {
    pub a: A,
    pub b: B,
    pub c: Vec<A>,
}
#[allow(unused_variables, unused_mut, clippy::all)]
impl<A, B> Modeled for G2<A, B> where A: Modeled + Clone + std::fmt::Debug, B: Modeled + Clone + std::fmt::Debug {
    fn t() -> T {
        T::Struct { name: std::any::type_name::<Self>(), fields: vec![FieldT { name: Some("a"), ty: <A as Modeled>::t, with: None, meta: vec![], docs: vec![] }, FieldT { name: Some("b"), ty: <B as Modeled>::t, with: None, meta: vec![], docs: vec![] }, FieldT { name: Some("c"), ty: <Vec<A> as Modeled>::t, with: None, meta: vec![], docs: vec![] }], meta: vec![], docs: vec![] }
    }
    fn m(&self) -> M {
        M::Struct(vec![("a".to_owned(), self.a.m()), ("b".to_owned(), self.b.m()), ("c".to_owned(), self.c.m())])
    }
    fn hidden(&self) -> Vec<u8> {
        vec![]
    }
    fn vals(n: usize, d: usize) -> Vec<Self> {
        let l0 = <A as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); let l1 = <B as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); let l2 = <Vec<A> as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); combos(&[l0.len(), l1.len(), l2.len()], n.max(1)).into_iter().map(|c: Vec<usize>| Self { a: l0[c[0]].dup(), b: l1[c[1]].dup(), c: l2[c[2]].dup() }).collect::<Vec<Self>>()
    }
    fn into_v(self) -> Option<Value> { Some(self.into()) }
    fn dup(&self) -> Self {
        Self { a: self.a.dup(), b: self.b.dup(), c: self.c.dup() }
    }
    fn dfmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        std::fmt::Debug::fmt(self, f)
    }
}

#[allow(dead_code)]
#[derive(Reflect, Clone, Debug)]
pub struct GT2<A, B>(
    pub A,
    #[reflect(skip)] pub Hid,
    pub B,
) where A: Modeled + Clone + std::fmt::Debug, B: Modeled + Clone + std::fmt::Debug;
#[allow(unused_variables, unused_mut, clippy::all)]
impl<A, B> Modeled for GT2<A, B> where A: Modeled + Clone + std::fmt::Debug, B: Modeled + Clone + std::fmt::Debug {
    fn t() -> T {
        T::TupleStruct { name: std::any::type_name::<Self>(), fields: vec![FieldT { name: None, ty: <A as Modeled>::t, with: None, meta: vec![], docs: vec![] }, FieldT { name: None, ty: <B as Modeled>::t, with: None, meta: vec![], docs: vec![] }], meta: vec![], docs: vec![] }
    }
    fn m(&self) -> M {
        M::TupleStruct(vec![self.0.m(), self.2.m()])
    }
    fn hidden(&self) -> Vec<u8> {
        vec![self.1.0]
    }
    fn vals(n: usize, d: usize) -> Vec<Self> {
        let l0 = <A as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); let l2 = <B as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); combos(&[l0.len(), l2.len()], n.max(1)).into_iter().map(|c: Vec<usize>| Self(l0[c[0]].dup(), Hid(2), l2[c[1]].dup())).collect::<Vec<Self>>()
    }
    fn into_v(self) -> Option<Value> { Some(self.into()) }
    fn dup(&self) -> Self {
        Self(self.0.dup(), Hid(self.1.0), self.2.dup())
    }
    fn dfmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        std::fmt::Debug::fmt(self, f)
    }
}

#[allow(dead_code)]
#[derive(Reflect, Clone, Debug)]
pub enum GE2<A, B> where A: Modeled + Clone + std::fmt::Debug, B: Modeled + Clone + std::fmt::Debug {
    L(
        A,
    ),
    R {
        b: B,
    },
    N,
}
#[allow(unused_variables, unused_mut, clippy::all)]
impl<A, B> Modeled for GE2<A, B> where A: Modeled + Clone + std::fmt::Debug, B: Modeled + Clone + std::fmt::Debug {
    fn t() -> T {
        T::Enum { name: std::any::type_name::<Self>(), variants: vec![VariantT { name: "L", kind: VK::Tuple, fields: vec![FieldT { name: None, ty: <A as Modeled>::t, with: None, meta: vec![], docs: vec![] }], meta: vec![], docs: vec![] }, VariantT { name: "R", kind: VK::Struct, fields: vec![FieldT { name: Some("b"), ty: <B as Modeled>::t, with: None, meta: vec![], docs: vec![] }], meta: vec![], docs: vec![] }, VariantT { name: "N", kind: VK::Unit, fields: vec![], meta: vec![], docs: vec![] }], skipped: vec![], meta: vec![], docs: vec![] }
    }
    fn m(&self) -> M {
        match self {
            Self::L(x0) => M::Enum("L".into(), VK::Tuple, vec![(None, x0.m())]),
            Self::R { b: x0 } => M::Enum("R".into(), VK::Struct, vec![(Some("b".into()), x0.m())]),
            Self::N => M::Enum("N".into(), VK::Unit, vec![]),
        }
    }
    fn hidden(&self) -> Vec<u8> {
        match self {
            _ => vec![],
        }
    }
    fn vals(n: usize, d: usize) -> Vec<Self> {
        let mut per: Vec<Vec<Self>> = vec![];
        per.push({ let l0 = <A as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); combos(&[l0.len()], n.max(1)).into_iter().map(|c: Vec<usize>| Self::L(l0[c[0]].dup())).collect::<Vec<Self>>() });
        per.push({ let l0 = <B as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); combos(&[l0.len()], n.max(1)).into_iter().map(|c: Vec<usize>| Self::R { b: l0[c[0]].dup() }).collect::<Vec<Self>>() });
        per.push(vec![Self::N]);
        interleave(per, n)
    }
    fn into_v(self) -> Option<Value> { Some(self.into()) }
    fn dup(&self) -> Self {
        match self {
            Self::L(x0) => Self::L(x0.dup()),
            Self::R { b: x0 } => Self::R { b: x0.dup() },
            Self::N => Self::N,
        }
    }
    fn dfmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        std::fmt::Debug::fmt(self, f)
    }
}

#[allow(dead_code)]
#[derive(Reflect, Clone, Debug)]
pub struct GC<const N: usize> {
    pub a: [u8; N],
    pub b: u8,
}
#[allow(unused_variables, unused_mut, clippy::all)]
impl<const N: usize> Modeled for GC<N> {
    fn t() -> T {
        T::Struct { name: std::any::type_name::<Self>(), fields: vec![FieldT { name: Some("a"), ty: <[u8; N] as Modeled>::t, with: None, meta: vec![], docs: vec![] }, FieldT { name: Some("b"), ty: <u8 as Modeled>::t, with: None, meta: vec![], docs: vec![] }], meta: vec![], docs: vec![] }
    }
    fn m(&self) -> M {
        M::Struct(vec![("a".to_owned(), self.a.m()), ("b".to_owned(), self.b.m())])
    }
    fn hidden(&self) -> Vec<u8> {
        vec![]
    }
    fn vals(n: usize, d: usize) -> Vec<Self> {
        let l0 = <[u8; N] as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); let l1 = <u8 as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); combos(&[l0.len(), l1.len()], n.max(1)).into_iter().map(|c: Vec<usize>| Self { a: l0[c[0]].dup(), b: l1[c[1]].dup() }).collect::<Vec<Self>>()
    }
    fn into_v(self) -> Option<Value> { Some(self.into()) }
    fn dup(&self) -> Self {
        Self { a: self.a.dup(), b: self.b.dup() }
    }
    fn dfmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        std::fmt::Debug::fmt(self, f)
    }
}

#[allow(dead_code)]
#[derive(Reflect, Clone, Debug)]
pub struct RList {
    pub head: u8,
    pub tail: Option<Box<RList>>,
}
#[allow(unused_variables, unused_mut, clippy::all)]
impl Modeled for RList {
    fn t() -> T {
        T::Struct { name: std::any::type_name::<Self>(), fields: vec![FieldT { name: Some("head"), ty: <u8 as Modeled>::t, with: None, meta: vec![], docs: vec![] }, FieldT { name: Some("tail"), ty: <Option<Box<RList>> as Modeled>::t, with: None, meta: vec![], docs: vec![] }], meta: vec![], docs: vec![] }
    }
    fn m(&self) -> M {
        M::Struct(vec![("head".to_owned(), self.head.m()), ("tail".to_owned(), self.tail.m())])
    }
    fn hidden(&self) -> Vec<u8> {
        vec![]
    }
    fn vals(n: usize, d: usize) -> Vec<Self> {
        let l0 = <u8 as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); let l1 = <Option<Box<RList>> as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); combos(&[l0.len(), l1.len()], n.max(1)).into_iter().map(|c: Vec<usize>| Self { head: l0[c[0]].dup(), tail: l1[c[1]].dup() }).collect::<Vec<Self>>()
    }
    fn into_v(self) -> Option<Value> { Some(self.into()) }
    fn vals_long() -> Vec<Self> { vec![(0..DEEP).fold(RList { head: 0, tail: None }, |l, i| RList { head: i as u8, tail: Some(Box::new(l)) })] }
    fn dup(&self) -> Self {
        Self { head: self.head.dup(), tail: self.tail.dup() }
    }
    fn dfmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        std::fmt::Debug::fmt(self, f)
    }
}

#[allow(dead_code)]
#[derive(Reflect, Clone, Debug)]
pub struct RTree {
    pub v: u8,
    pub kids: Vec<RTree>,
}
#[allow(unused_variables, unused_mut, clippy::all)]
impl Modeled for RTree {
    fn t() -> T {
        T::Struct { name: std::any::type_name::<Self>(), fields: vec![FieldT { name: Some("v"), ty: <u8 as Modeled>::t, with: None, meta: vec![], docs: vec![] }, FieldT { name: Some("kids"), ty: <Vec<RTree> as Modeled>::t, with: None, meta: vec![], docs: vec![] }], meta: vec![], docs: vec![] }
    }
    fn m(&self) -> M {
        M::Struct(vec![("v".to_owned(), self.v.m()), ("kids".to_owned(), self.kids.m())])
    }
    fn hidden(&self) -> Vec<u8> {
        vec![]
    }
    fn vals(n: usize, d: usize) -> Vec<Self> {
        let l0 = <u8 as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); let l1 = <Vec<RTree> as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); combos(&[l0.len(), l1.len()], n.max(1)).into_iter().map(|c: Vec<usize>| Self { v: l0[c[0]].dup(), kids: l1[c[1]].dup() }).collect::<Vec<Self>>()
    }
    fn into_v(self) -> Option<Value> { Some(self.into()) }
    fn vals_long() -> Vec<Self> { vec![(0..DEEP).fold(RTree { v: 0, kids: vec![] }, |l, i| RTree { v: i as u8, kids: vec![l] })] }
    fn dup(&self) -> Self {
        Self { v: self.v.dup(), kids: self.kids.dup() }
    }
    fn dfmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        std::fmt::Debug::fmt(self, f)
    }
}

#[allow(dead_code)]
#[derive(Reflect, Clone, Debug)]
pub struct RMap {
    pub kids: BTreeMap<u8, RMap>,
    pub s: String,
}
#[allow(unused_variables, unused_mut, clippy::all)]
impl Modeled for RMap {
    fn t() -> T {
        T::Struct { name: std::any::type_name::<Self>(), fields: vec![FieldT { name: Some("kids"), ty: <BTreeMap<u8, RMap> as Modeled>::t, with: None, meta: vec![], docs: vec![] }, FieldT { name: Some("s"), ty: <String as Modeled>::t, with: None, meta: vec![], docs: vec![] }], meta: vec![], docs: vec![] }
    }
    fn m(&self) -> M {
        M::Struct(vec![("kids".to_owned(), self.kids.m()), ("s".to_owned(), self.s.m())])
    }
    fn hidden(&self) -> Vec<u8> {
        vec![]
    }
    fn vals(n: usize, d: usize) -> Vec<Self> {
        let l0 = <BTreeMap<u8, RMap> as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); let l1 = <String as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); combos(&[l0.len(), l1.len()], n.max(1)).into_iter().map(|c: Vec<usize>| Self { kids: l0[c[0]].dup(), s: l1[c[1]].dup() }).collect::<Vec<Self>>()
    }
    fn into_v(self) -> Option<Value> { Some(self.into()) }
    fn vals_long() -> Vec<Self> { vec![(0..DEEP).fold(RMap { kids: BTreeMap::new(), s: String::new() }, |l, i| RMap { kids: [(i as u8, l)].into(), s: i.to_string() })] }
    fn dup(&self) -> Self {
        Self { kids: self.kids.dup(), s: self.s.dup() }
    }
    fn dfmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        std::fmt::Debug::fmt(self, f)
    }
}

#[allow(dead_code)]
#[derive(Reflect, Clone, Debug)]
pub struct RTup(
    pub u8,
    pub Option<Box<RTup>>,
);
#[allow(unused_variables, unused_mut, clippy::all)]
impl Modeled for RTup {
    fn t() -> T {
        T::TupleStruct { name: std::any::type_name::<Self>(), fields: vec![FieldT { name: None, ty: <u8 as Modeled>::t, with: None, meta: vec![], docs: vec![] }, FieldT { name: None, ty: <Option<Box<RTup>> as Modeled>::t, with: None, meta: vec![], docs: vec![] }], meta: vec![], docs: vec![] }
    }
    fn m(&self) -> M {
        M::TupleStruct(vec![self.0.m(), self.1.m()])
    }
    fn hidden(&self) -> Vec<u8> {
        vec![]
    }
    fn vals(n: usize, d: usize) -> Vec<Self> {
        let l0 = <u8 as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); let l1 = <Option<Box<RTup>> as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); combos(&[l0.len(), l1.len()], n.max(1)).into_iter().map(|c: Vec<usize>| Self(l0[c[0]].dup(), l1[c[1]].dup())).collect::<Vec<Self>>()
    }
    fn into_v(self) -> Option<Value> { Some(self.into()) }
    fn vals_long() -> Vec<Self> { vec![(0..DEEP).fold(RTup(0, None), |l, i| RTup(i as u8, Some(Box::new(l))))] }
    fn dup(&self) -> Self {
        Self(self.0.dup(), self.1.dup())
    }
    fn dfmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        std::fmt::Debug::fmt(self, f)
    }
}

#[allow(dead_code)]
#[derive(Reflect, Clone, Debug)]
pub struct RVec(
    pub Vec<RVec>,
);
#[allow(unused_variables, unused_mut, clippy::all)]
impl Modeled for RVec {
    fn t() -> T {
        T::TupleStruct { name: std::any::type_name::<Self>(), fields: vec![FieldT { name: None, ty: <Vec<RVec> as Modeled>::t, with: None, meta: vec![], docs: vec![] }], meta: vec![], docs: vec![] }
    }
    fn m(&self) -> M {
        M::TupleStruct(vec![self.0.m()])
    }
    fn hidden(&self) -> Vec<u8> {
        vec![]
    }
    fn vals(n: usize, d: usize) -> Vec<Self> {
        let l0 = <Vec<RVec> as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); combos(&[l0.len()], n.max(1)).into_iter().map(|c: Vec<usize>| Self(l0[c[0]].dup())).collect::<Vec<Self>>()
    }
    fn into_v(self) -> Option<Value> { Some(self.into()) }
    fn vals_long() -> Vec<Self> { vec![(0..DEEP).fold(RVec(vec![]), |l, _| RVec(vec![l]))] }
    fn dup(&self) -> Self {
        Self(self.0.dup())
    }
    fn dfmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        std::fmt::Debug::fmt(self, f)
    }
}

#[allow(dead_code)]
#[derive(Reflect, Clone, Debug)]
pub enum REnum {
    Leaf(
        i32,
    ),
    Node(
        Box<REnum>,
        Box<REnum>,
    ),
    Many {
        kids: Vec<REnum>,
    },
    Opt(
        Option<Box<REnum>>,
    ),
}
#[allow(unused_variables, unused_mut, clippy::all)]
impl Modeled for REnum {
    fn t() -> T {
        T::Enum { name: std::any::type_name::<Self>(), variants: vec![VariantT { name: "Leaf", kind: VK::Tuple, fields: vec![FieldT { name: None, ty: <i32 as Modeled>::t, with: None, meta: vec![], docs: vec![] }], meta: vec![], docs: vec![] }, VariantT { name: "Node", kind: VK::Tuple, fields: vec![FieldT { name: None, ty: <Box<REnum> as Modeled>::t, with: None, meta: vec![], docs: vec![] }, FieldT { name: None, ty: <Box<REnum> as Modeled>::t, with: None, meta: vec![], docs: vec![] }], meta: vec![], docs: vec![] }, VariantT { name: "Many", kind: VK::Struct, fields: vec![FieldT { name: Some("kids"), ty: <Vec<REnum> as Modeled>::t, with: None, meta: vec![], docs: vec![] }], meta: vec![], docs: vec![] }, VariantT { name: "Opt", kind: VK::Tuple, fields: vec![FieldT { name: None, ty: <Option<Box<REnum>> as Modeled>::t, with: None, meta: vec![], docs: vec![] }], meta: vec![], docs: vec![] }], skipped: vec![], meta: vec![], docs: vec![] }
    }
    fn m(&self) -> M {
        match self {
            Self::Leaf(x0) => M::Enum("Leaf".into(), VK::Tuple, vec![(None, x0.m())]),
            Self::Node(x0, x1) => M::Enum("Node".into(), VK::Tuple, vec![(None, x0.m()), (None, x1.m())]),
            Self::Many { kids: x0 } => M::Enum("Many".into(), VK::Struct, vec![(Some("kids".into()), x0.m())]),
            Self::Opt(x0) => M::Enum("Opt".into(), VK::Tuple, vec![(None, x0.m())]),
        }
    }
    fn hidden(&self) -> Vec<u8> {
        match self {
            _ => vec![],
        }
    }
    fn vals(n: usize, d: usize) -> Vec<Self> {
        let mut per: Vec<Vec<Self>> = vec![];
        per.push({ let l0 = <i32 as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); combos(&[l0.len()], n.max(1)).into_iter().map(|c: Vec<usize>| Self::Leaf(l0[c[0]].dup())).collect::<Vec<Self>>() });
        if d > 0 { per.push({ let l0 = <Box<REnum> as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); let l1 = <Box<REnum> as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); combos(&[l0.len(), l1.len()], n.max(1)).into_iter().map(|c: Vec<usize>| Self::Node(l0[c[0]].dup(), l1[c[1]].dup())).collect::<Vec<Self>>() }); }
        if d > 0 { per.push({ let l0 = <Vec<REnum> as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); combos(&[l0.len()], n.max(1)).into_iter().map(|c: Vec<usize>| Self::Many { kids: l0[c[0]].dup() }).collect::<Vec<Self>>() }); }
        if d > 0 { per.push({ let l0 = <Option<Box<REnum>> as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); combos(&[l0.len()], n.max(1)).into_iter().map(|c: Vec<usize>| Self::Opt(l0[c[0]].dup())).collect::<Vec<Self>>() }); }
        interleave(per, n)
    }
    fn into_v(self) -> Option<Value> { Some(self.into()) }
    fn vals_long() -> Vec<Self> { vec![(0..DEEP).fold(REnum::Leaf(1), |l, i| match i % 3 {
        0 => REnum::Node(Box::new(REnum::Leaf(i as i32)), Box::new(l)),
        1 => REnum::Many { kids: vec![l] },
        _ => REnum::Opt(Some(Box::new(l))),
    })] }
    fn dup(&self) -> Self {
        match self {
            Self::Leaf(x0) => Self::Leaf(x0.dup()),
            Self::Node(x0, x1) => Self::Node(x0.dup(), x1.dup()),
            Self::Many { kids: x0 } => Self::Many { kids: x0.dup() },
            Self::Opt(x0) => Self::Opt(x0.dup()),
        }
    }
    fn dfmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        std::fmt::Debug::fmt(self, f)
    }
}

#[allow(dead_code)]
#[derive(Reflect, Clone, Debug)]
pub struct MutA {
    pub b: Vec<MutB>,
    pub n: u8,
}
#[allow(unused_variables, unused_mut, clippy::all)]
impl Modeled for MutA {
    fn t() -> T {
        T::Struct { name: std::any::type_name::<Self>(), fields: vec![FieldT { name: Some("b"), ty: <Vec<MutB> as Modeled>::t, with: None, meta: vec![], docs: vec![] }, FieldT { name: Some("n"), ty: <u8 as Modeled>::t, with: None, meta: vec![], docs: vec![] }], meta: vec![], docs: vec![] }
    }
    fn m(&self) -> M {
        M::Struct(vec![("b".to_owned(), self.b.m()), ("n".to_owned(), self.n.m())])
    }
    fn hidden(&self) -> Vec<u8> {
        vec![]
    }
    fn vals(n: usize, d: usize) -> Vec<Self> {
        let l0 = <Vec<MutB> as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); let l1 = <u8 as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); combos(&[l0.len(), l1.len()], n.max(1)).into_iter().map(|c: Vec<usize>| Self { b: l0[c[0]].dup(), n: l1[c[1]].dup() }).collect::<Vec<Self>>()
    }
    fn into_v(self) -> Option<Value> { Some(self.into()) }
    fn dup(&self) -> Self {
        Self { b: self.b.dup(), n: self.n.dup() }
    }
    fn dfmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        std::fmt::Debug::fmt(self, f)
    }
}

#[allow(dead_code)]
#[derive(Reflect, Clone, Debug)]
pub enum MutB {
    None_,
    A(
        Box<MutA>,
    ),
    T {
        t: Option<MutC>,
    },
}
#[allow(unused_variables, unused_mut, clippy::all)]
impl Modeled for MutB {
    fn t() -> T {
        T::Enum { name: std::any::type_name::<Self>(), variants: vec![VariantT { name: "None_", kind: VK::Unit, fields: vec![], meta: vec![], docs: vec![] }, VariantT { name: "A", kind: VK::Tuple, fields: vec![FieldT { name: None, ty: <Box<MutA> as Modeled>::t, with: None, meta: vec![], docs: vec![] }], meta: vec![], docs: vec![] }, VariantT { name: "T", kind: VK::Struct, fields: vec![FieldT { name: Some("t"), ty: <Option<MutC> as Modeled>::t, with: None, meta: vec![], docs: vec![] }], meta: vec![], docs: vec![] }], skipped: vec![], meta: vec![], docs: vec![] }
    }
    fn m(&self) -> M {
        match self {
            Self::None_ => M::Enum("None_".into(), VK::Unit, vec![]),
            Self::A(x0) => M::Enum("A".into(), VK::Tuple, vec![(None, x0.m())]),
            Self::T { t: x0 } => M::Enum("T".into(), VK::Struct, vec![(Some("t".into()), x0.m())]),
        }
    }
    fn hidden(&self) -> Vec<u8> {
        match self {
            _ => vec![],
        }
    }
    fn vals(n: usize, d: usize) -> Vec<Self> {
        let mut per: Vec<Vec<Self>> = vec![];
        per.push(vec![Self::None_]);
        if d > 0 { per.push({ let l0 = <Box<MutA> as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); combos(&[l0.len()], n.max(1)).into_iter().map(|c: Vec<usize>| Self::A(l0[c[0]].dup())).collect::<Vec<Self>>() }); }
        if d > 0 { per.push({ let l0 = <Option<MutC> as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); combos(&[l0.len()], n.max(1)).into_iter().map(|c: Vec<usize>| Self::T { t: l0[c[0]].dup() }).collect::<Vec<Self>>() }); }
        interleave(per, n)
    }
    fn into_v(self) -> Option<Value> { Some(self.into()) }
    fn dup(&self) -> Self {
        match self {
            Self::None_ => Self::None_,
            Self::A(x0) => Self::A(x0.dup()),
            Self::T { t: x0 } => Self::T { t: x0.dup() },
        }
    }
    fn dfmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        std::fmt::Debug::fmt(self, f)
    }
}

#[allow(dead_code)]
#[derive(Reflect, Clone, Debug)]
pub struct MutC(
    pub Box<MutB>,
    pub String,
);
#[allow(unused_variables, unused_mut, clippy::all)]
impl Modeled for MutC {
    fn t() -> T {
        T::TupleStruct { name: std::any::type_name::<Self>(), fields: vec![FieldT { name: None, ty: <Box<MutB> as Modeled>::t, with: None, meta: vec![], docs: vec![] }, FieldT { name: None, ty: <String as Modeled>::t, with: None, meta: vec![], docs: vec![] }], meta: vec![], docs: vec![] }
    }
    fn m(&self) -> M {
        M::TupleStruct(vec![self.0.m(), self.1.m()])
    }
    fn hidden(&self) -> Vec<u8> {
        vec![]
    }
    fn vals(n: usize, d: usize) -> Vec<Self> {
        let l0 = <Box<MutB> as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); let l1 = <String as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); combos(&[l0.len(), l1.len()], n.max(1)).into_iter().map(|c: Vec<usize>| Self(l0[c[0]].dup(), l1[c[1]].dup())).collect::<Vec<Self>>()
    }
    fn into_v(self) -> Option<Value> { Some(self.into()) }
    fn dup(&self) -> Self {
        Self(self.0.dup(), self.1.dup())
    }
    fn dfmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        std::fmt::Debug::fmt(self, f)
    }
}

#[allow(dead_code)]
#[derive(Reflect, Clone, Debug)]
pub struct RGen<X: Modeled + Clone + std::fmt::Debug> {
    pub x: X,
    pub next: Option<Box<RGen<X>>>,
}
#[allow(unused_variables, unused_mut, clippy::all)]
impl<X: Modeled + Clone + std::fmt::Debug> Modeled for RGen<X> {
    fn t() -> T {
        T::Struct { name: std::any::type_name::<Self>(), fields: vec![FieldT { name: Some("x"), ty: <X as Modeled>::t, with: None, meta: vec![], docs: vec![] }, FieldT { name: Some("next"), ty: <Option<Box<RGen<X>>> as Modeled>::t, with: None, meta: vec![], docs: vec![] }], meta: vec![], docs: vec![] }
    }
    fn m(&self) -> M {
        M::Struct(vec![("x".to_owned(), self.x.m()), ("next".to_owned(), self.next.m())])
    }
    fn hidden(&self) -> Vec<u8> {
        vec![]
    }
    fn vals(n: usize, d: usize) -> Vec<Self> {
        let l0 = <X as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); let l1 = <Option<Box<RGen<X>>> as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); combos(&[l0.len(), l1.len()], n.max(1)).into_iter().map(|c: Vec<usize>| Self { x: l0[c[0]].dup(), next: l1[c[1]].dup() }).collect::<Vec<Self>>()
    }
    fn into_v(self) -> Option<Value> { Some(self.into()) }
    fn dup(&self) -> Self {
        Self { x: self.x.dup(), next: self.next.dup() }
    }
    fn dfmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        std::fmt::Debug::fmt(self, f)
    }
}

pub mod dup_a {
use super::*;
#[allow(dead_code)]
#[derive(Reflect, Clone, Debug)]
pub struct Dup {
    pub x: u8,
    pub y: String,
}
#[allow(unused_variables, unused_mut, clippy::all)]
impl Modeled for Dup {
    fn t() -> T {
        T::Struct { name: std::any::type_name::<Self>(), fields: vec![FieldT { name: Some("x"), ty: <u8 as Modeled>::t, with: None, meta: vec![], docs: vec![] }, FieldT { name: Some("y"), ty: <String as Modeled>::t, with: None, meta: vec![], docs: vec![] }], meta: vec![], docs: vec![] }
    }
    fn m(&self) -> M {
        M::Struct(vec![("x".to_owned(), self.x.m()), ("y".to_owned(), self.y.m())])
    }
    fn hidden(&self) -> Vec<u8> {
        vec![]
    }
    fn vals(n: usize, d: usize) -> Vec<Self> {
        let l0 = <u8 as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); let l1 = <String as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); combos(&[l0.len(), l1.len()], n.max(1)).into_iter().map(|c: Vec<usize>| Self { x: l0[c[0]].dup(), y: l1[c[1]].dup() }).collect::<Vec<Self>>()
    }
    fn into_v(self) -> Option<Value> { Some(self.into()) }
    fn dup(&self) -> Self {
        Self { x: self.x.dup(), y: self.y.dup() }
    }
    fn dfmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        std::fmt::Debug::fmt(self, f)
    }
}

#[allow(dead_code)]
#[derive(Reflect, Clone, Debug)]
pub enum DupE {
    A(
        u8,
    ),
    B {
        z: String,
    },
}
#[allow(unused_variables, unused_mut, clippy::all)]
impl Modeled for DupE {
    fn t() -> T {
        T::Enum { name: std::any::type_name::<Self>(), variants: vec![VariantT { name: "A", kind: VK::Tuple, fields: vec![FieldT { name: None, ty: <u8 as Modeled>::t, with: None, meta: vec![], docs: vec![] }], meta: vec![], docs: vec![] }, VariantT { name: "B", kind: VK::Struct, fields: vec![FieldT { name: Some("z"), ty: <String as Modeled>::t, with: None, meta: vec![], docs: vec![] }], meta: vec![], docs: vec![] }], skipped: vec![], meta: vec![], docs: vec![] }
    }
    fn m(&self) -> M {
        match self {
            Self::A(x0) => M::Enum("A".into(), VK::Tuple, vec![(None, x0.m())]),
            Self::B { z: x0 } => M::Enum("B".into(), VK::Struct, vec![(Some("z".into()), x0.m())]),
        }
    }
    fn hidden(&self) -> Vec<u8> {
        match self {
            _ => vec![],
        }
    }
    fn vals(n: usize, d: usize) -> Vec<Self> {
        let mut per: Vec<Vec<Self>> = vec![];
        per.push({ let l0 = <u8 as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); combos(&[l0.len()], n.max(1)).into_iter().map(|c: Vec<usize>| Self::A(l0[c[0]].dup())).collect::<Vec<Self>>() });
        per.push({ let l0 = <String as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); combos(&[l0.len()], n.max(1)).into_iter().map(|c: Vec<usize>| Self::B { z: l0[c[0]].dup() }).collect::<Vec<Self>>() });
        interleave(per, n)
    }
    fn into_v(self) -> Option<Value> { Some(self.into()) }
    fn dup(&self) -> Self {
        match self {
            Self::A(x0) => Self::A(x0.dup()),
            Self::B { z: x0 } => Self::B { z: x0.dup() },
        }
    }
    fn dfmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        std::fmt::Debug::fmt(self, f)
    }
}

}
pub mod dup_b {
use super::*;
#[allow(dead_code)]
#[derive(Reflect, Clone, Debug)]
pub struct Dup {
    pub x: String,
    pub y: u8,
}
#[allow(unused_variables, unused_mut, clippy::all)]
impl Modeled for Dup {
    fn t() -> T {
        T::Struct { name: std::any::type_name::<Self>(), fields: vec![FieldT { name: Some("x"), ty: <String as Modeled>::t, with: None, meta: vec![], docs: vec![] }, FieldT { name: Some("y"), ty: <u8 as Modeled>::t, with: None, meta: vec![], docs: vec![] }], meta: vec![], docs: vec![] }
    }
    fn m(&self) -> M {
        M::Struct(vec![("x".to_owned(), self.x.m()), ("y".to_owned(), self.y.m())])
    }
    fn hidden(&self) -> Vec<u8> {
        vec![]
    }
    fn vals(n: usize, d: usize) -> Vec<Self> {
        let l0 = <String as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); let l1 = <u8 as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); combos(&[l0.len(), l1.len()], n.max(1)).into_iter().map(|c: Vec<usize>| Self { x: l0[c[0]].dup(), y: l1[c[1]].dup() }).collect::<Vec<Self>>()
    }
    fn into_v(self) -> Option<Value> { Some(self.into()) }
    fn dup(&self) -> Self {
        Self { x: self.x.dup(), y: self.y.dup() }
    }
    fn dfmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        std::fmt::Debug::fmt(self, f)
    }
}

#[allow(dead_code)]
#[derive(Reflect, Clone, Debug)]
pub enum DupE {
    A(
        String,
    ),
    B {
        z: u8,
    },
}
#[allow(unused_variables, unused_mut, clippy::all)]
impl Modeled for DupE {
    fn t() -> T {
        T::Enum { name: std::any::type_name::<Self>(), variants: vec![VariantT { name: "A", kind: VK::Tuple, fields: vec![FieldT { name: None, ty: <String as Modeled>::t, with: None, meta: vec![], docs: vec![] }], meta: vec![], docs: vec![] }, VariantT { name: "B", kind: VK::Struct, fields: vec![FieldT { name: Some("z"), ty: <u8 as Modeled>::t, with: None, meta: vec![], docs: vec![] }], meta: vec![], docs: vec![] }], skipped: vec![], meta: vec![], docs: vec![] }
    }
    fn m(&self) -> M {
        match self {
            Self::A(x0) => M::Enum("A".into(), VK::Tuple, vec![(None, x0.m())]),
            Self::B { z: x0 } => M::Enum("B".into(), VK::Struct, vec![(Some("z".into()), x0.m())]),
        }
    }
    fn hidden(&self) -> Vec<u8> {
        match self {
            _ => vec![],
        }
    }
    fn vals(n: usize, d: usize) -> Vec<Self> {
        let mut per: Vec<Vec<Self>> = vec![];
        per.push({ let l0 = <String as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); combos(&[l0.len()], n.max(1)).into_iter().map(|c: Vec<usize>| Self::A(l0[c[0]].dup())).collect::<Vec<Self>>() });
        per.push({ let l0 = <u8 as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); combos(&[l0.len()], n.max(1)).into_iter().map(|c: Vec<usize>| Self::B { z: l0[c[0]].dup() }).collect::<Vec<Self>>() });
        interleave(per, n)
    }
    fn into_v(self) -> Option<Value> { Some(self.into()) }
    fn dup(&self) -> Self {
        match self {
            Self::A(x0) => Self::A(x0.dup()),
            Self::B { z: x0 } => Self::B { z: x0.dup() },
        }
    }
    fn dfmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        std::fmt::Debug::fmt(self, f)
    }
}

}
#[allow(dead_code)]
#[derive(Reflect, Clone, Debug)]
pub struct DupBoth {
    pub a: dup_a::Dup,
    pub b: dup_b::Dup,
    pub c: Vec<dup_a::DupE>,
    pub d: Vec<dup_b::DupE>,
}
#[allow(unused_variables, unused_mut, clippy::all)]
impl Modeled for DupBoth {
    fn t() -> T {
        T::Struct { name: std::any::type_name::<Self>(), fields: vec![FieldT { name: Some("a"), ty: <dup_a::Dup as Modeled>::t, with: None, meta: vec![], docs: vec![] }, FieldT { name: Some("b"), ty: <dup_b::Dup as Modeled>::t, with: None, meta: vec![], docs: vec![] }, FieldT { name: Some("c"), ty: <Vec<dup_a::DupE> as Modeled>::t, with: None, meta: vec![], docs: vec![] }, FieldT { name: Some("d"), ty: <Vec<dup_b::DupE> as Modeled>::t, with: None, meta: vec![], docs: vec![] }], meta: vec![], docs: vec![] }
    }
    fn m(&self) -> M {
        M::Struct(vec![("a".to_owned(), self.a.m()), ("b".to_owned(), self.b.m()), ("c".to_owned(), self.c.m()), ("d".to_owned(), self.d.m())])
    }
    fn hidden(&self) -> Vec<u8> {
        vec![]
    }
    fn vals(n: usize, d: usize) -> Vec<Self> {
        let l0 = <dup_a::Dup as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); let l1 = <dup_b::Dup as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); let l2 = <Vec<dup_a::DupE> as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); let l3 = <Vec<dup_b::DupE> as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); combos(&[l0.len(), l1.len(), l2.len(), l3.len()], n.max(1)).into_iter().map(|c: Vec<usize>| Self { a: l0[c[0]].dup(), b: l1[c[1]].dup(), c: l2[c[2]].dup(), d: l3[c[3]].dup() }).collect::<Vec<Self>>()
    }
    fn into_v(self) -> Option<Value> { Some(self.into()) }
    fn dup(&self) -> Self {
        Self { a: self.a.dup(), b: self.b.dup(), c: self.c.dup(), d: self.d.dup() }
    }
    fn dfmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        std::fmt::Debug::fmt(self, f)
    }
}

pub trait Here {
    type S;
    type E;
}
pub struct At<const N: usize>;
pub type SameA = <At<0> as Here>::S;
pub type SameB = <At<1> as Here>::S;
pub type SameEA = <At<0> as Here>::E;
pub type SameEB = <At<1> as Here>::E;
const _: () = {
#[allow(dead_code)]
#[derive(Reflect, Clone, Debug)]
pub struct Same {
    pub x: u8,
    pub y: String,
}
#[allow(unused_variables, unused_mut, clippy::all)]
impl Modeled for Same {
    fn t() -> T {
        T::Struct { name: std::any::type_name::<Self>(), fields: vec![FieldT { name: Some("x"), ty: <u8 as Modeled>::t, with: None, meta: vec![], docs: vec![] }, FieldT { name: Some("y"), ty: <String as Modeled>::t, with: None, meta: vec![], docs: vec![] }], meta: vec![], docs: vec![] }
    }
    fn m(&self) -> M {
        M::Struct(vec![("x".to_owned(), self.x.m()), ("y".to_owned(), self.y.m())])
    }
    fn hidden(&self) -> Vec<u8> {
        vec![]
    }
    fn vals(n: usize, d: usize) -> Vec<Self> {
        let l0 = <u8 as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); let l1 = <String as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); combos(&[l0.len(), l1.len()], n.max(1)).into_iter().map(|c: Vec<usize>| Self { x: l0[c[0]].dup(), y: l1[c[1]].dup() }).collect::<Vec<Self>>()
    }
    fn into_v(self) -> Option<Value> { Some(self.into()) }
    fn dup(&self) -> Self {
        Self { x: self.x.dup(), y: self.y.dup() }
    }
    fn dfmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        std::fmt::Debug::fmt(self, f)
    }
}

#[allow(dead_code)]
#[derive(Reflect, Clone, Debug)]
pub enum SameE {
    A(
        u8,
    ),
    B {
        z: String,
    },
}
#[allow(unused_variables, unused_mut, clippy::all)]
impl Modeled for SameE {
    fn t() -> T {
        T::Enum { name: std::any::type_name::<Self>(), variants: vec![VariantT { name: "A", kind: VK::Tuple, fields: vec![FieldT { name: None, ty: <u8 as Modeled>::t, with: None, meta: vec![], docs: vec![] }], meta: vec![], docs: vec![] }, VariantT { name: "B", kind: VK::Struct, fields: vec![FieldT { name: Some("z"), ty: <String as Modeled>::t, with: None, meta: vec![], docs: vec![] }], meta: vec![], docs: vec![] }], skipped: vec![], meta: vec![], docs: vec![] }
    }
    fn m(&self) -> M {
        match self {
            Self::A(x0) => M::Enum("A".into(), VK::Tuple, vec![(None, x0.m())]),
            Self::B { z: x0 } => M::Enum("B".into(), VK::Struct, vec![(Some("z".into()), x0.m())]),
        }
    }
    fn hidden(&self) -> Vec<u8> {
        match self {
            _ => vec![],
        }
    }
    fn vals(n: usize, d: usize) -> Vec<Self> {
        let mut per: Vec<Vec<Self>> = vec![];
        per.push({ let l0 = <u8 as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); combos(&[l0.len()], n.max(1)).into_iter().map(|c: Vec<usize>| Self::A(l0[c[0]].dup())).collect::<Vec<Self>>() });
        per.push({ let l0 = <String as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); combos(&[l0.len()], n.max(1)).into_iter().map(|c: Vec<usize>| Self::B { z: l0[c[0]].dup() }).collect::<Vec<Self>>() });
        interleave(per, n)
    }
    fn into_v(self) -> Option<Value> { Some(self.into()) }
    fn dup(&self) -> Self {
        match self {
            Self::A(x0) => Self::A(x0.dup()),
            Self::B { z: x0 } => Self::B { z: x0.dup() },
        }
    }
    fn dfmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        std::fmt::Debug::fmt(self, f)
    }
}

impl Here for At<0> { type S = Same; type E = SameE; }
};
const _: () = {
#[allow(dead_code)]
#[derive(Reflect, Clone, Debug)]
pub struct Same {
    pub x: String,
    pub y: u8,
}
#[allow(unused_variables, unused_mut, clippy::all)]
impl Modeled for Same {
    fn t() -> T {
        T::Struct { name: std::any::type_name::<Self>(), fields: vec![FieldT { name: Some("x"), ty: <String as Modeled>::t, with: None, meta: vec![], docs: vec![] }, FieldT { name: Some("y"), ty: <u8 as Modeled>::t, with: None, meta: vec![], docs: vec![] }], meta: vec![], docs: vec![] }
    }
    fn m(&self) -> M {
        M::Struct(vec![("x".to_owned(), self.x.m()), ("y".to_owned(), self.y.m())])
    }
    fn hidden(&self) -> Vec<u8> {
        vec![]
    }
    fn vals(n: usize, d: usize) -> Vec<Self> {
        let l0 = <String as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); let l1 = <u8 as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); combos(&[l0.len(), l1.len()], n.max(1)).into_iter().map(|c: Vec<usize>| Self { x: l0[c[0]].dup(), y: l1[c[1]].dup() }).collect::<Vec<Self>>()
    }
    fn into_v(self) -> Option<Value> { Some(self.into()) }
    fn dup(&self) -> Self {
        Self { x: self.x.dup(), y: self.y.dup() }
    }
    fn dfmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        std::fmt::Debug::fmt(self, f)
    }
}

#[allow(dead_code)]
#[derive(Reflect, Clone, Debug)]
pub enum SameE {
    A(
        String,
    ),
    B {
        z: u8,
    },
}
#[allow(unused_variables, unused_mut, clippy::all)]
impl Modeled for SameE {
    fn t() -> T {
        T::Enum { name: std::any::type_name::<Self>(), variants: vec![VariantT { name: "A", kind: VK::Tuple, fields: vec![FieldT { name: None, ty: <String as Modeled>::t, with: None, meta: vec![], docs: vec![] }], meta: vec![], docs: vec![] }, VariantT { name: "B", kind: VK::Struct, fields: vec![FieldT { name: Some("z"), ty: <u8 as Modeled>::t, with: None, meta: vec![], docs: vec![] }], meta: vec![], docs: vec![] }], skipped: vec![], meta: vec![], docs: vec![] }
    }
    fn m(&self) -> M {
        match self {
            Self::A(x0) => M::Enum("A".into(), VK::Tuple, vec![(None, x0.m())]),
            Self::B { z: x0 } => M::Enum("B".into(), VK::Struct, vec![(Some("z".into()), x0.m())]),
        }
    }
    fn hidden(&self) -> Vec<u8> {
        match self {
            _ => vec![],
        }
    }
    fn vals(n: usize, d: usize) -> Vec<Self> {
        let mut per: Vec<Vec<Self>> = vec![];
        per.push({ let l0 = <String as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); combos(&[l0.len()], n.max(1)).into_iter().map(|c: Vec<usize>| Self::A(l0[c[0]].dup())).collect::<Vec<Self>>() });
        per.push({ let l0 = <u8 as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); combos(&[l0.len()], n.max(1)).into_iter().map(|c: Vec<usize>| Self::B { z: l0[c[0]].dup() }).collect::<Vec<Self>>() });
        interleave(per, n)
    }
    fn into_v(self) -> Option<Value> { Some(self.into()) }
    fn dup(&self) -> Self {
        match self {
            Self::A(x0) => Self::A(x0.dup()),
            Self::B { z: x0 } => Self::B { z: x0.dup() },
        }
    }
    fn dfmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        std::fmt::Debug::fmt(self, f)
    }
}

impl Here for At<1> { type S = Same; type E = SameE; }
};
#[allow(dead_code)]
#[derive(Reflect, Clone, Debug)]
pub struct SameBoth {
    pub a: SameA,
    pub b: SameB,
    pub c: Vec<SameEA>,
    pub d: Vec<SameEB>,
}
#[allow(unused_variables, unused_mut, clippy::all)]
impl Modeled for SameBoth {
    fn t() -> T {
        T::Struct { name: std::any::type_name::<Self>(), fields: vec![FieldT { name: Some("a"), ty: <SameA as Modeled>::t, with: None, meta: vec![], docs: vec![] }, FieldT { name: Some("b"), ty: <SameB as Modeled>::t, with: None, meta: vec![], docs: vec![] }, FieldT { name: Some("c"), ty: <Vec<SameEA> as Modeled>::t, with: None, meta: vec![], docs: vec![] }, FieldT { name: Some("d"), ty: <Vec<SameEB> as Modeled>::t, with: None, meta: vec![], docs: vec![] }], meta: vec![], docs: vec![] }
    }
    fn m(&self) -> M {
        M::Struct(vec![("a".to_owned(), self.a.m()), ("b".to_owned(), self.b.m()), ("c".to_owned(), self.c.m()), ("d".to_owned(), self.d.m())])
    }
    fn hidden(&self) -> Vec<u8> {
        vec![]
    }
    fn vals(n: usize, d: usize) -> Vec<Self> {
        let l0 = <SameA as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); let l1 = <SameB as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); let l2 = <Vec<SameEA> as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); let l3 = <Vec<SameEB> as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); combos(&[l0.len(), l1.len(), l2.len(), l3.len()], n.max(1)).into_iter().map(|c: Vec<usize>| Self { a: l0[c[0]].dup(), b: l1[c[1]].dup(), c: l2[c[2]].dup(), d: l3[c[3]].dup() }).collect::<Vec<Self>>()
    }
    fn into_v(self) -> Option<Value> { Some(self.into()) }
    fn dup(&self) -> Self {
        Self { a: self.a.dup(), b: self.b.dup(), c: self.c.dup(), d: self.d.dup() }
    }
    fn dfmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        std::fmt::Debug::fmt(self, f)
    }
}

#[allow(dead_code)]
#[derive(Reflect, Clone, Debug)]
pub struct SameDeep(
    pub Option<SameB>,
    pub (SameEB, SameEA),
    pub BTreeMap<u8, SameA>,
);
#[allow(unused_variables, unused_mut, clippy::all)]
impl Modeled for SameDeep {
    fn t() -> T {
        T::TupleStruct { name: std::any::type_name::<Self>(), fields: vec![FieldT { name: None, ty: <Option<SameB> as Modeled>::t, with: None, meta: vec![], docs: vec![] }, FieldT { name: None, ty: <(SameEB, SameEA) as Modeled>::t, with: None, meta: vec![], docs: vec![] }, FieldT { name: None, ty: <BTreeMap<u8, SameA> as Modeled>::t, with: None, meta: vec![], docs: vec![] }], meta: vec![], docs: vec![] }
    }
    fn m(&self) -> M {
        M::TupleStruct(vec![self.0.m(), self.1.m(), self.2.m()])
    }
    fn hidden(&self) -> Vec<u8> {
        vec![]
    }
    fn vals(n: usize, d: usize) -> Vec<Self> {
        let l0 = <Option<SameB> as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); let l1 = <(SameEB, SameEA) as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); let l2 = <BTreeMap<u8, SameA> as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); combos(&[l0.len(), l1.len(), l2.len()], n.max(1)).into_iter().map(|c: Vec<usize>| Self(l0[c[0]].dup(), l1[c[1]].dup(), l2[c[2]].dup())).collect::<Vec<Self>>()
    }
    fn into_v(self) -> Option<Value> { Some(self.into()) }
    fn dup(&self) -> Self {
        Self(self.0.dup(), self.1.dup(), self.2.dup())
    }
    fn dfmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        std::fmt::Debug::fmt(self, f)
    }
}

#[allow(dead_code)]
/// type docs
///
/// "quoted" \ third
#[derive(Reflect, Clone, Debug)]
#[reflect(meta(i = 1, b = true, st = S1m0 { a: 3 }))]
pub struct MetaS {
    /// field a
    /// second line
    #[reflect(meta(i = 2, s = "text"))] pub a: u8,
    /// hidden
    #[reflect(skip, meta(i = 3))] pub h: Hid,
    #[reflect(meta(v = vec![1_u8, 2], neg = -5_i64))] pub b: String,
    /// field c
    pub c: bool,
    pub d: MetaE,
}
#[allow(unused_variables, unused_mut, clippy::all)]
impl Modeled for MetaS {
    fn t() -> T {
        T::Struct { name: std::any::type_name::<Self>(), fields: vec![FieldT { name: Some("a"), ty: <u8 as Modeled>::t, with: None, meta: vec![("i", || Value::from(2_i32)), ("s", || Value::from("text"))], docs: vec![" field a", " second line"] }, FieldT { name: Some("b"), ty: <String as Modeled>::t, with: None, meta: vec![("v", || Value::List(vec![Value::u8(1), Value::u8(2)])), ("neg", || Value::i64(-5))], docs: vec![] }, FieldT { name: Some("c"), ty: <bool as Modeled>::t, with: None, meta: vec![], docs: vec![" field c"] }, FieldT { name: Some("d"), ty: <MetaE as Modeled>::t, with: None, meta: vec![], docs: vec![] }], meta: vec![("i", || Value::from(1_i32)), ("b", || Value::bool(true)), ("st", || M::Struct(vec![("a".into(), M::S(S::I32(3)))]).to_value())], docs: vec![" type docs", "", " \"quoted\" \\ third"] }
    }
    fn m(&self) -> M {
        M::Struct(vec![("a".to_owned(), self.a.m()), ("b".to_owned(), self.b.m()), ("c".to_owned(), self.c.m()), ("d".to_owned(), self.d.m())])
    }
    fn hidden(&self) -> Vec<u8> {
        vec![self.h.0]
    }
    fn vals(n: usize, d: usize) -> Vec<Self> {
        let l0 = <u8 as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); let l2 = <String as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); let l3 = <bool as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); let l4 = <MetaE as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); combos(&[l0.len(), l2.len(), l3.len(), l4.len()], n.max(1)).into_iter().map(|c: Vec<usize>| Self { a: l0[c[0]].dup(), h: Hid(2), b: l2[c[1]].dup(), c: l3[c[2]].dup(), d: l4[c[3]].dup() }).collect::<Vec<Self>>()
    }
    fn into_v(self) -> Option<Value> { Some(self.into()) }
    fn dup(&self) -> Self {
        Self { a: self.a.dup(), h: Hid(self.h.0), b: self.b.dup(), c: self.c.dup(), d: self.d.dup() }
    }
    fn dfmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        std::fmt::Debug::fmt(self, f)
    }
}

#[allow(dead_code)]
/// tuple docs
#[derive(Reflect, Clone, Debug)]
#[reflect(meta(i = 1, v = vec![1_u8, 2]))]
pub struct MetaT(
    /// zero
    #[reflect(meta(i = 2))] pub u8,
    /// hidden
    #[reflect(skip, meta(i = 3))] pub Hid,
    #[reflect(meta(s = "text", e = Units::Two))] pub String,
    /// two
    /// more
    pub bool,
);
#[allow(unused_variables, unused_mut, clippy::all)]
impl Modeled for MetaT {
    fn t() -> T {
        T::TupleStruct { name: std::any::type_name::<Self>(), fields: vec![FieldT { name: None, ty: <u8 as Modeled>::t, with: None, meta: vec![("i", || Value::from(2_i32))], docs: vec![" zero"] }, FieldT { name: None, ty: <String as Modeled>::t, with: None, meta: vec![("s", || Value::from("text")), ("e", || M::Enum("Two".into(), VK::Unit, vec![]).to_value())], docs: vec![] }, FieldT { name: None, ty: <bool as Modeled>::t, with: None, meta: vec![], docs: vec![" two", " more"] }], meta: vec![("i", || Value::from(1_i32)), ("v", || Value::List(vec![Value::u8(1), Value::u8(2)]))], docs: vec![" tuple docs"] }
    }
    fn m(&self) -> M {
        M::TupleStruct(vec![self.0.m(), self.2.m(), self.3.m()])
    }
    fn hidden(&self) -> Vec<u8> {
        vec![self.1.0]
    }
    fn vals(n: usize, d: usize) -> Vec<Self> {
        let l0 = <u8 as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); let l2 = <String as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); let l3 = <bool as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); combos(&[l0.len(), l2.len(), l3.len()], n.max(1)).into_iter().map(|c: Vec<usize>| Self(l0[c[0]].dup(), Hid(2), l2[c[1]].dup(), l3[c[2]].dup())).collect::<Vec<Self>>()
    }
    fn into_v(self) -> Option<Value> { Some(self.into()) }
    fn dup(&self) -> Self {
        Self(self.0.dup(), Hid(self.1.0), self.2.dup(), self.3.dup())
    }
    fn dfmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        std::fmt::Debug::fmt(self, f)
    }
}

#[allow(dead_code)]
/// enum docs
#[derive(Reflect, Clone, Debug)]
#[reflect(meta(i = 1, neg = -5_i64))]
pub enum MetaE {
    /// A
    #[reflect(meta(i = 2))]
    A,
    /// H
    #[reflect(skip, meta(i = 3, s = "text"))]
    H,
    /// B
    /// BB
    #[reflect(meta(s = "text"))]
    B {
        /// x
        #[reflect(meta(i = 3))] x: u8,
        /// hx
        #[reflect(skip)] h: Hid,
        /// y
        y: u8,
    },
    #[reflect(meta(i = 4))]
    C(
        #[reflect(skip, meta(i = 2))] Hid,
        /// c0
        #[reflect(meta(i = 4, b = true))] u8,
        String,
    ),
    D,
}
#[allow(unused_variables, unused_mut, clippy::all)]
impl Modeled for MetaE {
    fn t() -> T {
        T::Enum { name: std::any::type_name::<Self>(), variants: vec![VariantT { name: "A", kind: VK::Unit, fields: vec![], meta: vec![("i", || Value::from(2_i32))], docs: vec![" A"] }, VariantT { name: "B", kind: VK::Struct, fields: vec![FieldT { name: Some("x"), ty: <u8 as Modeled>::t, with: None, meta: vec![("i", || Value::from(3_i32))], docs: vec![" x"] }, FieldT { name: Some("y"), ty: <u8 as Modeled>::t, with: None, meta: vec![], docs: vec![" y"] }], meta: vec![("s", || Value::from("text"))], docs: vec![" B", " BB"] }, VariantT { name: "C", kind: VK::Tuple, fields: vec![FieldT { name: None, ty: <u8 as Modeled>::t, with: None, meta: vec![("i", || Value::from(4_i32)), ("b", || Value::bool(true))], docs: vec![" c0"] }, FieldT { name: None, ty: <String as Modeled>::t, with: None, meta: vec![], docs: vec![] }], meta: vec![("i", || Value::from(4_i32))], docs: vec![] }, VariantT { name: "D", kind: VK::Unit, fields: vec![], meta: vec![], docs: vec![] }], skipped: vec!["H"], meta: vec![("i", || Value::from(1_i32)), ("neg", || Value::i64(-5))], docs: vec![" enum docs"] }
    }
    fn m(&self) -> M {
        match self {
            Self::A => M::Enum("A".into(), VK::Unit, vec![]),
            Self::H => M::Enum("H".into(), VK::Unit, vec![]),
            Self::B { x: x0, h: x1, y: x2 } => M::Enum("B".into(), VK::Struct, vec![(Some("x".into()), x0.m()), (Some("y".into()), x2.m())]),
            Self::C(x0, x1, x2) => M::Enum("C".into(), VK::Tuple, vec![(None, x1.m()), (None, x2.m())]),
            Self::D => M::Enum("D".into(), VK::Unit, vec![]),
        }
    }
    fn hidden(&self) -> Vec<u8> {
        match self {
            Self::B { x: x0, h: x1, y: x2 } => vec![x1.0],
            Self::C(x0, x1, x2) => vec![x0.0],
            _ => vec![],
        }
    }
    fn vals(n: usize, d: usize) -> Vec<Self> {
        let mut per: Vec<Vec<Self>> = vec![];
        per.push(vec![Self::A]);
        per.push({ let l0 = <u8 as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); let l2 = <u8 as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); combos(&[l0.len(), l2.len()], n.max(1)).into_iter().map(|c: Vec<usize>| Self::B { x: l0[c[0]].dup(), h: Hid(2), y: l2[c[1]].dup() }).collect::<Vec<Self>>() });
        per.push({ let l1 = <u8 as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); let l2 = <String as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); combos(&[l1.len(), l2.len()], n.max(1)).into_iter().map(|c: Vec<usize>| Self::C(Hid(1), l1[c[0]].dup(), l2[c[1]].dup())).collect::<Vec<Self>>() });
        per.push(vec![Self::D]);
        interleave(per, n)
    }
    fn into_v(self) -> Option<Value> { Some(self.into()) }
    fn dup(&self) -> Self {
        match self {
            Self::A => Self::A,
            Self::H => Self::H,
            Self::B { x: x0, h: x1, y: x2 } => Self::B { x: x0.dup(), h: Hid(x1.0), y: x2.dup() },
            Self::C(x0, x1, x2) => Self::C(Hid(x0.0), x1.dup(), x2.dup()),
            Self::D => Self::D,
        }
    }
    fn dfmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        std::fmt::Debug::fmt(self, f)
    }
}

#[allow(dead_code)]
#[derive(Reflect, Clone, Debug)]
pub struct NoMeta {
    pub a: u8,
    pub b: MetaS,
    pub c: Vec<MetaT>,
}
#[allow(unused_variables, unused_mut, clippy::all)]
impl Modeled for NoMeta {
    fn t() -> T {
        T::Struct { name: std::any::type_name::<Self>(), fields: vec![FieldT { name: Some("a"), ty: <u8 as Modeled>::t, with: None, meta: vec![], docs: vec![] }, FieldT { name: Some("b"), ty: <MetaS as Modeled>::t, with: None, meta: vec![], docs: vec![] }, FieldT { name: Some("c"), ty: <Vec<MetaT> as Modeled>::t, with: None, meta: vec![], docs: vec![] }], meta: vec![], docs: vec![] }
    }
    fn m(&self) -> M {
        M::Struct(vec![("a".to_owned(), self.a.m()), ("b".to_owned(), self.b.m()), ("c".to_owned(), self.c.m())])
    }
    fn hidden(&self) -> Vec<u8> {
        vec![]
    }
    fn vals(n: usize, d: usize) -> Vec<Self> {
        let l0 = <u8 as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); let l1 = <MetaS as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); let l2 = <Vec<MetaT> as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); combos(&[l0.len(), l1.len(), l2.len()], n.max(1)).into_iter().map(|c: Vec<usize>| Self { a: l0[c[0]].dup(), b: l1[c[1]].dup(), c: l2[c[2]].dup() }).collect::<Vec<Self>>()
    }
    fn into_v(self) -> Option<Value> { Some(self.into()) }
    fn dup(&self) -> Self {
        Self { a: self.a.dup(), b: self.b.dup(), c: self.c.dup() }
    }
    fn dfmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        std::fmt::Debug::fmt(self, f)
    }
}

#[allow(dead_code)]
/// unit
#[derive(Reflect, Clone, Debug)]
#[reflect(meta(i = 1, s = "text"))]
pub struct MetaU;
#[allow(unused_variables, unused_mut, clippy::all)]
impl Modeled for MetaU {
    fn t() -> T {
        T::Struct { name: std::any::type_name::<Self>(), fields: vec![], meta: vec![("i", || Value::from(1_i32)), ("s", || Value::from("text"))], docs: vec![" unit"] }
    }
    fn m(&self) -> M {
        M::Struct(vec![])
    }
    fn hidden(&self) -> Vec<u8> {
        vec![]
    }
    fn vals(n: usize, d: usize) -> Vec<Self> {
        vec![Self]
    }
    fn into_v(self) -> Option<Value> { Some(self.into()) }
    fn dup(&self) -> Self {
        Self
    }
    fn dfmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        std::fmt::Debug::fmt(self, f)
    }
}

#[allow(dead_code)]
#[derive(Reflect, Clone, Debug)]
/// a
///
///
/// a
/// a
///
#[reflect(meta(type_ = 1, _x = 2, X = 3, x = 4, x1 = 5, a__b_ = 6))]
#[doc = " b "]
#[allow(dead_code)]
///   indented
///	tab
/// é \ "
///no space
/// * list
/// b 
pub struct OddS {
    /// a
    ///
    ///
    /// a
    /// a
    ///
    #[reflect(meta(type_ = 1, _x = 2, X = 3, x = 4, x1 = 5, a__b_ = 6))]
    #[doc = " b "]
    #[allow(dead_code)]
    ///   indented
    ///	tab
    /// é \ "
    ///no space
    /// * list
    /// b 
    pub a: u8,
    /// b 
    /// * list
    ///no space
    /// é \ "
    ///	tab
    ///   indented
    #[reflect(meta(a__b_ = 6, x1 = 5, x = 4, X = 3, _x = 2, type_ = 1))]
    #[doc = " b "]
    #[allow(dead_code)]
    ///
    /// a
    /// a
    ///
    ///
    /// a
    pub b: u8,
}
#[allow(unused_variables, unused_mut, clippy::all)]
impl Modeled for OddS {
    fn t() -> T {
        T::Struct { name: std::any::type_name::<Self>(), fields: vec![FieldT { name: Some("a"), ty: <u8 as Modeled>::t, with: None, meta: vec![("type_", || Value::from(1_i32)), ("_x", || Value::from(2_i32)), ("X", || Value::from(3_i32)), ("x", || Value::from(4_i32)), ("x1", || Value::from(5_i32)), ("a__b_", || Value::from(6_i32))], docs: vec![" a", "", "", " a", " a", "", " b ", "   indented", "	tab", " é \\ \"", "no space", " * list", " b "] }, FieldT { name: Some("b"), ty: <u8 as Modeled>::t, with: None, meta: vec![("a__b_", || Value::from(6_i32)), ("x1", || Value::from(5_i32)), ("x", || Value::from(4_i32)), ("X", || Value::from(3_i32)), ("_x", || Value::from(2_i32)), ("type_", || Value::from(1_i32))], docs: vec![" b ", " * list", "no space", " é \\ \"", "	tab", "   indented", " b ", "", " a", " a", "", "", " a"] }], meta: vec![("type_", || Value::from(1_i32)), ("_x", || Value::from(2_i32)), ("X", || Value::from(3_i32)), ("x", || Value::from(4_i32)), ("x1", || Value::from(5_i32)), ("a__b_", || Value::from(6_i32))], docs: vec![" a", "", "", " a", " a", "", " b ", "   indented", "	tab", " é \\ \"", "no space", " * list", " b "] }
    }
    fn m(&self) -> M {
        M::Struct(vec![("a".to_owned(), self.a.m()), ("b".to_owned(), self.b.m())])
    }
    fn hidden(&self) -> Vec<u8> {
        vec![]
    }
    fn vals(n: usize, d: usize) -> Vec<Self> {
        let l0 = <u8 as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); let l1 = <u8 as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); combos(&[l0.len(), l1.len()], n.max(1)).into_iter().map(|c: Vec<usize>| Self { a: l0[c[0]].dup(), b: l1[c[1]].dup() }).collect::<Vec<Self>>()
    }
    fn into_v(self) -> Option<Value> { Some(self.into()) }
    fn dup(&self) -> Self {
        Self { a: self.a.dup(), b: self.b.dup() }
    }
    fn dfmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        std::fmt::Debug::fmt(self, f)
    }
}

#[allow(dead_code)]
#[derive(Reflect, Clone, Debug)]
/// b 
/// * list
///no space
/// é \ "
///	tab
///   indented
#[reflect(meta(a__b_ = 6, x1 = 5, x = 4, X = 3, _x = 2, type_ = 1))]
#[doc = " b "]
#[allow(dead_code)]
///
/// a
/// a
///
///
/// a
pub struct OddT(
    /// a
    ///
    ///
    /// a
    /// a
    ///
    #[reflect(meta(type_ = 1, _x = 2, X = 3, x = 4, x1 = 5, a__b_ = 6))]
    #[doc = " b "]
    #[allow(dead_code)]
    ///   indented
    ///	tab
    /// é \ "
    ///no space
    /// * list
    /// b 
    pub u8,
    ///
    ///
    pub u8,
);
#[allow(unused_variables, unused_mut, clippy::all)]
impl Modeled for OddT {
    fn t() -> T {
        T::TupleStruct { name: std::any::type_name::<Self>(), fields: vec![FieldT { name: None, ty: <u8 as Modeled>::t, with: None, meta: vec![("type_", || Value::from(1_i32)), ("_x", || Value::from(2_i32)), ("X", || Value::from(3_i32)), ("x", || Value::from(4_i32)), ("x1", || Value::from(5_i32)), ("a__b_", || Value::from(6_i32))], docs: vec![" a", "", "", " a", " a", "", " b ", "   indented", "	tab", " é \\ \"", "no space", " * list", " b "] }, FieldT { name: None, ty: <u8 as Modeled>::t, with: None, meta: vec![], docs: vec!["", ""] }], meta: vec![("a__b_", || Value::from(6_i32)), ("x1", || Value::from(5_i32)), ("x", || Value::from(4_i32)), ("X", || Value::from(3_i32)), ("_x", || Value::from(2_i32)), ("type_", || Value::from(1_i32))], docs: vec![" b ", " * list", "no space", " é \\ \"", "	tab", "   indented", " b ", "", " a", " a", "", "", " a"] }
    }
    fn m(&self) -> M {
        M::TupleStruct(vec![self.0.m(), self.1.m()])
    }
    fn hidden(&self) -> Vec<u8> {
        vec![]
    }
    fn vals(n: usize, d: usize) -> Vec<Self> {
        let l0 = <u8 as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); let l1 = <u8 as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); combos(&[l0.len(), l1.len()], n.max(1)).into_iter().map(|c: Vec<usize>| Self(l0[c[0]].dup(), l1[c[1]].dup())).collect::<Vec<Self>>()
    }
    fn into_v(self) -> Option<Value> { Some(self.into()) }
    fn dup(&self) -> Self {
        Self(self.0.dup(), self.1.dup())
    }
    fn dfmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        std::fmt::Debug::fmt(self, f)
    }
}

#[allow(dead_code)]
#[derive(Reflect, Clone, Debug)]
/// a
///
///
/// a
/// a
///
#[reflect(meta(type_ = 1, _x = 2, X = 3, x = 4, x1 = 5, a__b_ = 6))]
#[doc = " b "]
#[allow(dead_code)]
///   indented
///	tab
/// é \ "
///no space
/// * list
/// b 
pub enum OddE {
    /// a
    ///
    ///
    /// a
    /// a
    ///
    #[reflect(meta(type_ = 1, _x = 2, X = 3, x = 4, x1 = 5, a__b_ = 6))]
    #[doc = " b "]
    #[allow(dead_code)]
    ///   indented
    ///	tab
    /// é \ "
    ///no space
    /// * list
    /// b 
    A,
    ///
    ///
    /// a
    /// a
    ///
    /// b 
    #[reflect(meta(_x = 2, X = 3, x = 4, x1 = 5, a__b_ = 6))]
    #[doc = "   indented"]
    #[allow(dead_code)]
    ///	tab
    /// é \ "
    ///no space
    /// * list
    /// b 
    B(
        /// a
        ///
        ///
        /// a
        /// a
        ///
        #[reflect(meta(type_ = 1, _x = 2, X = 3, x = 4, x1 = 5, a__b_ = 6))]
        #[doc = " b "]
        #[allow(dead_code)]
        ///   indented
        ///	tab
        /// é \ "
        ///no space
        /// * list
        /// b 
        u8,
    ),
    ///
    /// a
    /// a
    ///
    /// b 
    #[reflect(meta(X = 3, x = 4, x1 = 5, a__b_ = 6))]
    #[doc = "   indented"]
    #[allow(dead_code)]
    ///	tab
    /// é \ "
    ///no space
    /// * list
    /// b 
    C {
        /// a
        ///
        ///
        /// a
        /// a
        ///
        #[reflect(meta(type_ = 1, _x = 2, X = 3, x = 4, x1 = 5, a__b_ = 6))]
        #[doc = " b "]
        #[allow(dead_code)]
        ///   indented
        ///	tab
        /// é \ "
        ///no space
        /// * list
        /// b 
        a: u8,
    },
    ///
    D,
}
#[allow(unused_variables, unused_mut, clippy::all)]
impl Modeled for OddE {
    fn t() -> T {
        T::Enum { name: std::any::type_name::<Self>(), variants: vec![VariantT { name: "A", kind: VK::Unit, fields: vec![], meta: vec![("type_", || Value::from(1_i32)), ("_x", || Value::from(2_i32)), ("X", || Value::from(3_i32)), ("x", || Value::from(4_i32)), ("x1", || Value::from(5_i32)), ("a__b_", || Value::from(6_i32))], docs: vec![" a", "", "", " a", " a", "", " b ", "   indented", "	tab", " é \\ \"", "no space", " * list", " b "] }, VariantT { name: "B", kind: VK::Tuple, fields: vec![FieldT { name: None, ty: <u8 as Modeled>::t, with: None, meta: vec![("type_", || Value::from(1_i32)), ("_x", || Value::from(2_i32)), ("X", || Value::from(3_i32)), ("x", || Value::from(4_i32)), ("x1", || Value::from(5_i32)), ("a__b_", || Value::from(6_i32))], docs: vec![" a", "", "", " a", " a", "", " b ", "   indented", "	tab", " é \\ \"", "no space", " * list", " b "] }], meta: vec![("_x", || Value::from(2_i32)), ("X", || Value::from(3_i32)), ("x", || Value::from(4_i32)), ("x1", || Value::from(5_i32)), ("a__b_", || Value::from(6_i32))], docs: vec!["", "", " a", " a", "", " b ", "   indented", "	tab", " é \\ \"", "no space", " * list", " b "] }, VariantT { name: "C", kind: VK::Struct, fields: vec![FieldT { name: Some("a"), ty: <u8 as Modeled>::t, with: None, meta: vec![("type_", || Value::from(1_i32)), ("_x", || Value::from(2_i32)), ("X", || Value::from(3_i32)), ("x", || Value::from(4_i32)), ("x1", || Value::from(5_i32)), ("a__b_", || Value::from(6_i32))], docs: vec![" a", "", "", " a", " a", "", " b ", "   indented", "	tab", " é \\ \"", "no space", " * list", " b "] }], meta: vec![("X", || Value::from(3_i32)), ("x", || Value::from(4_i32)), ("x1", || Value::from(5_i32)), ("a__b_", || Value::from(6_i32))], docs: vec!["", " a", " a", "", " b ", "   indented", "	tab", " é \\ \"", "no space", " * list", " b "] }, VariantT { name: "D", kind: VK::Unit, fields: vec![], meta: vec![], docs: vec![""] }], skipped: vec![], meta: vec![("type_", || Value::from(1_i32)), ("_x", || Value::from(2_i32)), ("X", || Value::from(3_i32)), ("x", || Value::from(4_i32)), ("x1", || Value::from(5_i32)), ("a__b_", || Value::from(6_i32))], docs: vec![" a", "", "", " a", " a", "", " b ", "   indented", "	tab", " é \\ \"", "no space", " * list", " b "] }
    }
    fn m(&self) -> M {
        match self {
            Self::A => M::Enum("A".into(), VK::Unit, vec![]),
            Self::B(x0) => M::Enum("B".into(), VK::Tuple, vec![(None, x0.m())]),
            Self::C { a: x0 } => M::Enum("C".into(), VK::Struct, vec![(Some("a".into()), x0.m())]),
            Self::D => M::Enum("D".into(), VK::Unit, vec![]),
        }
    }
    fn hidden(&self) -> Vec<u8> {
        match self {
            _ => vec![],
        }
    }
    fn vals(n: usize, d: usize) -> Vec<Self> {
        let mut per: Vec<Vec<Self>> = vec![];
        per.push(vec![Self::A]);
        per.push({ let l0 = <u8 as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); combos(&[l0.len()], n.max(1)).into_iter().map(|c: Vec<usize>| Self::B(l0[c[0]].dup())).collect::<Vec<Self>>() });
        per.push({ let l0 = <u8 as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); combos(&[l0.len()], n.max(1)).into_iter().map(|c: Vec<usize>| Self::C { a: l0[c[0]].dup() }).collect::<Vec<Self>>() });
        per.push(vec![Self::D]);
        interleave(per, n)
    }
    fn into_v(self) -> Option<Value> { Some(self.into()) }
    fn dup(&self) -> Self {
        match self {
            Self::A => Self::A,
            Self::B(x0) => Self::B(x0.dup()),
            Self::C { a: x0 } => Self::C { a: x0.dup() },
            Self::D => Self::D,
        }
    }
    fn dfmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        std::fmt::Debug::fmt(self, f)
    }
}

#[allow(dead_code)]
#[derive(Reflect, Clone, Debug)]
#[reflect(meta(i = 1, s = "text"))]
pub struct PlS0m {
    pub a: u8,
    #[reflect(skip)] pub h: Hid,
    pub b: String,
}
#[allow(unused_variables, unused_mut, clippy::all)]
impl Modeled for PlS0m {
    fn t() -> T {
        T::Struct { name: std::any::type_name::<Self>(), fields: vec![FieldT { name: Some("a"), ty: <u8 as Modeled>::t, with: None, meta: vec![], docs: vec![] }, FieldT { name: Some("b"), ty: <String as Modeled>::t, with: None, meta: vec![], docs: vec![] }], meta: vec![("i", || Value::from(1_i32)), ("s", || Value::from("text"))], docs: vec![] }
    }
    fn m(&self) -> M {
        M::Struct(vec![("a".to_owned(), self.a.m()), ("b".to_owned(), self.b.m())])
    }
    fn hidden(&self) -> Vec<u8> {
        vec![self.h.0]
    }
    fn vals(n: usize, d: usize) -> Vec<Self> {
        let l0 = <u8 as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); let l2 = <String as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); combos(&[l0.len(), l2.len()], n.max(1)).into_iter().map(|c: Vec<usize>| Self { a: l0[c[0]].dup(), h: Hid(2), b: l2[c[1]].dup() }).collect::<Vec<Self>>()
    }
    fn into_v(self) -> Option<Value> { Some(self.into()) }
    fn dup(&self) -> Self {
        Self { a: self.a.dup(), h: Hid(self.h.0), b: self.b.dup() }
    }
    fn dfmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        std::fmt::Debug::fmt(self, f)
    }
}

#[allow(dead_code)]
#[derive(Reflect, Clone, Debug)]
#[reflect(meta(i = 1, s = "text"))]
pub struct PlT0m(
    pub u8,
    #[reflect(skip)] pub Hid,
    pub String,
);
#[allow(unused_variables, unused_mut, clippy::all)]
impl Modeled for PlT0m {
    fn t() -> T {
        T::TupleStruct { name: std::any::type_name::<Self>(), fields: vec![FieldT { name: None, ty: <u8 as Modeled>::t, with: None, meta: vec![], docs: vec![] }, FieldT { name: None, ty: <String as Modeled>::t, with: None, meta: vec![], docs: vec![] }], meta: vec![("i", || Value::from(1_i32)), ("s", || Value::from("text"))], docs: vec![] }
    }
    fn m(&self) -> M {
        M::TupleStruct(vec![self.0.m(), self.2.m()])
    }
    fn hidden(&self) -> Vec<u8> {
        vec![self.1.0]
    }
    fn vals(n: usize, d: usize) -> Vec<Self> {
        let l0 = <u8 as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); let l2 = <String as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); combos(&[l0.len(), l2.len()], n.max(1)).into_iter().map(|c: Vec<usize>| Self(l0[c[0]].dup(), Hid(2), l2[c[1]].dup())).collect::<Vec<Self>>()
    }
    fn into_v(self) -> Option<Value> { Some(self.into()) }
    fn dup(&self) -> Self {
        Self(self.0.dup(), Hid(self.1.0), self.2.dup())
    }
    fn dfmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        std::fmt::Debug::fmt(self, f)
    }
}

#[allow(dead_code)]
/// type docs
/// more
#[derive(Reflect, Clone, Debug)]
pub struct PlS0d {
    pub a: u8,
    #[reflect(skip)] pub h: Hid,
    pub b: String,
}
#[allow(unused_variables, unused_mut, clippy::all)]
impl Modeled for PlS0d {
    fn t() -> T {
        T::Struct { name: std::any::type_name::<Self>(), fields: vec![FieldT { name: Some("a"), ty: <u8 as Modeled>::t, with: None, meta: vec![], docs: vec![] }, FieldT { name: Some("b"), ty: <String as Modeled>::t, with: None, meta: vec![], docs: vec![] }], meta: vec![], docs: vec![" type docs", " more"] }
    }
    fn m(&self) -> M {
        M::Struct(vec![("a".to_owned(), self.a.m()), ("b".to_owned(), self.b.m())])
    }
    fn hidden(&self) -> Vec<u8> {
        vec![self.h.0]
    }
    fn vals(n: usize, d: usize) -> Vec<Self> {
        let l0 = <u8 as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); let l2 = <String as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); combos(&[l0.len(), l2.len()], n.max(1)).into_iter().map(|c: Vec<usize>| Self { a: l0[c[0]].dup(), h: Hid(2), b: l2[c[1]].dup() }).collect::<Vec<Self>>()
    }
    fn into_v(self) -> Option<Value> { Some(self.into()) }
    fn dup(&self) -> Self {
        Self { a: self.a.dup(), h: Hid(self.h.0), b: self.b.dup() }
    }
    fn dfmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        std::fmt::Debug::fmt(self, f)
    }
}

#[allow(dead_code)]
/// type docs
/// more
#[derive(Reflect, Clone, Debug)]
pub struct PlT0d(
    pub u8,
    #[reflect(skip)] pub Hid,
    pub String,
);
#[allow(unused_variables, unused_mut, clippy::all)]
impl Modeled for PlT0d {
    fn t() -> T {
        T::TupleStruct { name: std::any::type_name::<Self>(), fields: vec![FieldT { name: None, ty: <u8 as Modeled>::t, with: None, meta: vec![], docs: vec![] }, FieldT { name: None, ty: <String as Modeled>::t, with: None, meta: vec![], docs: vec![] }], meta: vec![], docs: vec![" type docs", " more"] }
    }
    fn m(&self) -> M {
        M::TupleStruct(vec![self.0.m(), self.2.m()])
    }
    fn hidden(&self) -> Vec<u8> {
        vec![self.1.0]
    }
    fn vals(n: usize, d: usize) -> Vec<Self> {
        let l0 = <u8 as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); let l2 = <String as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); combos(&[l0.len(), l2.len()], n.max(1)).into_iter().map(|c: Vec<usize>| Self(l0[c[0]].dup(), Hid(2), l2[c[1]].dup())).collect::<Vec<Self>>()
    }
    fn into_v(self) -> Option<Value> { Some(self.into()) }
    fn dup(&self) -> Self {
        Self(self.0.dup(), Hid(self.1.0), self.2.dup())
    }
    fn dfmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        std::fmt::Debug::fmt(self, f)
    }
}

#[allow(dead_code)]
#[derive(Reflect, Clone, Debug)]
pub struct PlS0x {
    /// a
    #[reflect(meta(i = 2, v = vec![1_u8, 2]))] pub a: u8,
    /// h
    #[reflect(skip, meta(i = 2, v = vec![1_u8, 2]))] pub h: Hid,
    /// b
    #[reflect(meta(i = 2, v = vec![1_u8, 2]))] pub b: String,
}
#[allow(unused_variables, unused_mut, clippy::all)]
impl Modeled for PlS0x {
    fn t() -> T {
        T::Struct { name: std::any::type_name::<Self>(), fields: vec![FieldT { name: Some("a"), ty: <u8 as Modeled>::t, with: None, meta: vec![("i", || Value::from(2_i32)), ("v", || Value::List(vec![Value::u8(1), Value::u8(2)]))], docs: vec![" a"] }, FieldT { name: Some("b"), ty: <String as Modeled>::t, with: None, meta: vec![("i", || Value::from(2_i32)), ("v", || Value::List(vec![Value::u8(1), Value::u8(2)]))], docs: vec![" b"] }], meta: vec![], docs: vec![] }
    }
    fn m(&self) -> M {
        M::Struct(vec![("a".to_owned(), self.a.m()), ("b".to_owned(), self.b.m())])
    }
    fn hidden(&self) -> Vec<u8> {
        vec![self.h.0]
    }
    fn vals(n: usize, d: usize) -> Vec<Self> {
        let l0 = <u8 as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); let l2 = <String as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); combos(&[l0.len(), l2.len()], n.max(1)).into_iter().map(|c: Vec<usize>| Self { a: l0[c[0]].dup(), h: Hid(2), b: l2[c[1]].dup() }).collect::<Vec<Self>>()
    }
    fn into_v(self) -> Option<Value> { Some(self.into()) }
    fn dup(&self) -> Self {
        Self { a: self.a.dup(), h: Hid(self.h.0), b: self.b.dup() }
    }
    fn dfmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        std::fmt::Debug::fmt(self, f)
    }
}

#[allow(dead_code)]
#[derive(Reflect, Clone, Debug)]
pub struct PlT0x(
    /// a
    #[reflect(meta(i = 2, v = vec![1_u8, 2]))] pub u8,
    /// h
    #[reflect(skip, meta(i = 2, v = vec![1_u8, 2]))] pub Hid,
    /// b
    #[reflect(meta(i = 2, v = vec![1_u8, 2]))] pub String,
);
#[allow(unused_variables, unused_mut, clippy::all)]
impl Modeled for PlT0x {
    fn t() -> T {
        T::TupleStruct { name: std::any::type_name::<Self>(), fields: vec![FieldT { name: None, ty: <u8 as Modeled>::t, with: None, meta: vec![("i", || Value::from(2_i32)), ("v", || Value::List(vec![Value::u8(1), Value::u8(2)]))], docs: vec![" a"] }, FieldT { name: None, ty: <String as Modeled>::t, with: None, meta: vec![("i", || Value::from(2_i32)), ("v", || Value::List(vec![Value::u8(1), Value::u8(2)]))], docs: vec![" b"] }], meta: vec![], docs: vec![] }
    }
    fn m(&self) -> M {
        M::TupleStruct(vec![self.0.m(), self.2.m()])
    }
    fn hidden(&self) -> Vec<u8> {
        vec![self.1.0]
    }
    fn vals(n: usize, d: usize) -> Vec<Self> {
        let l0 = <u8 as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); let l2 = <String as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); combos(&[l0.len(), l2.len()], n.max(1)).into_iter().map(|c: Vec<usize>| Self(l0[c[0]].dup(), Hid(2), l2[c[1]].dup())).collect::<Vec<Self>>()
    }
    fn into_v(self) -> Option<Value> { Some(self.into()) }
    fn dup(&self) -> Self {
        Self(self.0.dup(), Hid(self.1.0), self.2.dup())
    }
    fn dfmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        std::fmt::Debug::fmt(self, f)
    }
}

#[allow(dead_code)]
#[derive(Reflect, Clone, Debug)]
pub struct PlS1m {
    #[reflect(meta(i = 1, s = "text"))] pub a: u8,
    #[reflect(skip)] pub h: Hid,
    pub b: String,
}
#[allow(unused_variables, unused_mut, clippy::all)]
impl Modeled for PlS1m {
    fn t() -> T {
        T::Struct { name: std::any::type_name::<Self>(), fields: vec![FieldT { name: Some("a"), ty: <u8 as Modeled>::t, with: None, meta: vec![("i", || Value::from(1_i32)), ("s", || Value::from("text"))], docs: vec![] }, FieldT { name: Some("b"), ty: <String as Modeled>::t, with: None, meta: vec![], docs: vec![] }], meta: vec![], docs: vec![] }
    }
    fn m(&self) -> M {
        M::Struct(vec![("a".to_owned(), self.a.m()), ("b".to_owned(), self.b.m())])
    }
    fn hidden(&self) -> Vec<u8> {
        vec![self.h.0]
    }
    fn vals(n: usize, d: usize) -> Vec<Self> {
        let l0 = <u8 as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); let l2 = <String as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); combos(&[l0.len(), l2.len()], n.max(1)).into_iter().map(|c: Vec<usize>| Self { a: l0[c[0]].dup(), h: Hid(2), b: l2[c[1]].dup() }).collect::<Vec<Self>>()
    }
    fn into_v(self) -> Option<Value> { Some(self.into()) }
    fn dup(&self) -> Self {
        Self { a: self.a.dup(), h: Hid(self.h.0), b: self.b.dup() }
    }
    fn dfmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        std::fmt::Debug::fmt(self, f)
    }
}

#[allow(dead_code)]
#[derive(Reflect, Clone, Debug)]
pub struct PlT1m(
    #[reflect(meta(i = 1, s = "text"))] pub u8,
    #[reflect(skip)] pub Hid,
    pub String,
);
#[allow(unused_variables, unused_mut, clippy::all)]
impl Modeled for PlT1m {
    fn t() -> T {
        T::TupleStruct { name: std::any::type_name::<Self>(), fields: vec![FieldT { name: None, ty: <u8 as Modeled>::t, with: None, meta: vec![("i", || Value::from(1_i32)), ("s", || Value::from("text"))], docs: vec![] }, FieldT { name: None, ty: <String as Modeled>::t, with: None, meta: vec![], docs: vec![] }], meta: vec![], docs: vec![] }
    }
    fn m(&self) -> M {
        M::TupleStruct(vec![self.0.m(), self.2.m()])
    }
    fn hidden(&self) -> Vec<u8> {
        vec![self.1.0]
    }
    fn vals(n: usize, d: usize) -> Vec<Self> {
        let l0 = <u8 as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); let l2 = <String as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); combos(&[l0.len(), l2.len()], n.max(1)).into_iter().map(|c: Vec<usize>| Self(l0[c[0]].dup(), Hid(2), l2[c[1]].dup())).collect::<Vec<Self>>()
    }
    fn into_v(self) -> Option<Value> { Some(self.into()) }
    fn dup(&self) -> Self {
        Self(self.0.dup(), Hid(self.1.0), self.2.dup())
    }
    fn dfmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        std::fmt::Debug::fmt(self, f)
    }
}

#[allow(dead_code)]
#[derive(Reflect, Clone, Debug)]
pub struct PlS1d {
    /// a docs
    /// more
    pub a: u8,
    #[reflect(skip)] pub h: Hid,
    pub b: String,
}
#[allow(unused_variables, unused_mut, clippy::all)]
impl Modeled for PlS1d {
    fn t() -> T {
        T::Struct { name: std::any::type_name::<Self>(), fields: vec![FieldT { name: Some("a"), ty: <u8 as Modeled>::t, with: None, meta: vec![], docs: vec![" a docs", " more"] }, FieldT { name: Some("b"), ty: <String as Modeled>::t, with: None, meta: vec![], docs: vec![] }], meta: vec![], docs: vec![] }
    }
    fn m(&self) -> M {
        M::Struct(vec![("a".to_owned(), self.a.m()), ("b".to_owned(), self.b.m())])
    }
    fn hidden(&self) -> Vec<u8> {
        vec![self.h.0]
    }
    fn vals(n: usize, d: usize) -> Vec<Self> {
        let l0 = <u8 as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); let l2 = <String as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); combos(&[l0.len(), l2.len()], n.max(1)).into_iter().map(|c: Vec<usize>| Self { a: l0[c[0]].dup(), h: Hid(2), b: l2[c[1]].dup() }).collect::<Vec<Self>>()
    }
    fn into_v(self) -> Option<Value> { Some(self.into()) }
    fn dup(&self) -> Self {
        Self { a: self.a.dup(), h: Hid(self.h.0), b: self.b.dup() }
    }
    fn dfmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        std::fmt::Debug::fmt(self, f)
    }
}

#[allow(dead_code)]
#[derive(Reflect, Clone, Debug)]
pub struct PlT1d(
    /// a docs
    /// more
    pub u8,
    #[reflect(skip)] pub Hid,
    pub String,
);
#[allow(unused_variables, unused_mut, clippy::all)]
impl Modeled for PlT1d {
    fn t() -> T {
        T::TupleStruct { name: std::any::type_name::<Self>(), fields: vec![FieldT { name: None, ty: <u8 as Modeled>::t, with: None, meta: vec![], docs: vec![" a docs", " more"] }, FieldT { name: None, ty: <String as Modeled>::t, with: None, meta: vec![], docs: vec![] }], meta: vec![], docs: vec![] }
    }
    fn m(&self) -> M {
        M::TupleStruct(vec![self.0.m(), self.2.m()])
    }
    fn hidden(&self) -> Vec<u8> {
        vec![self.1.0]
    }
    fn vals(n: usize, d: usize) -> Vec<Self> {
        let l0 = <u8 as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); let l2 = <String as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); combos(&[l0.len(), l2.len()], n.max(1)).into_iter().map(|c: Vec<usize>| Self(l0[c[0]].dup(), Hid(2), l2[c[1]].dup())).collect::<Vec<Self>>()
    }
    fn into_v(self) -> Option<Value> { Some(self.into()) }
    fn dup(&self) -> Self {
        Self(self.0.dup(), Hid(self.1.0), self.2.dup())
    }
    fn dfmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        std::fmt::Debug::fmt(self, f)
    }
}

#[allow(dead_code)]
/// type
#[derive(Reflect, Clone, Debug)]
#[reflect(meta(i = 2, v = vec![1_u8, 2]))]
pub struct PlS1x {
    pub a: u8,
    /// h
    #[reflect(skip, meta(i = 2, v = vec![1_u8, 2]))] pub h: Hid,
    /// b
    #[reflect(meta(i = 2, v = vec![1_u8, 2]))] pub b: String,
}
#[allow(unused_variables, unused_mut, clippy::all)]
impl Modeled for PlS1x {
    fn t() -> T {
        T::Struct { name: std::any::type_name::<Self>(), fields: vec![FieldT { name: Some("a"), ty: <u8 as Modeled>::t, with: None, meta: vec![], docs: vec![] }, FieldT { name: Some("b"), ty: <String as Modeled>::t, with: None, meta: vec![("i", || Value::from(2_i32)), ("v", || Value::List(vec![Value::u8(1), Value::u8(2)]))], docs: vec![" b"] }], meta: vec![("i", || Value::from(2_i32)), ("v", || Value::List(vec![Value::u8(1), Value::u8(2)]))], docs: vec![" type"] }
    }
    fn m(&self) -> M {
        M::Struct(vec![("a".to_owned(), self.a.m()), ("b".to_owned(), self.b.m())])
    }
    fn hidden(&self) -> Vec<u8> {
        vec![self.h.0]
    }
    fn vals(n: usize, d: usize) -> Vec<Self> {
        let l0 = <u8 as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); let l2 = <String as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); combos(&[l0.len(), l2.len()], n.max(1)).into_iter().map(|c: Vec<usize>| Self { a: l0[c[0]].dup(), h: Hid(2), b: l2[c[1]].dup() }).collect::<Vec<Self>>()
    }
    fn into_v(self) -> Option<Value> { Some(self.into()) }
    fn dup(&self) -> Self {
        Self { a: self.a.dup(), h: Hid(self.h.0), b: self.b.dup() }
    }
    fn dfmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        std::fmt::Debug::fmt(self, f)
    }
}

#[allow(dead_code)]
/// type
#[derive(Reflect, Clone, Debug)]
#[reflect(meta(i = 2, v = vec![1_u8, 2]))]
pub struct PlT1x(
    pub u8,
    /// h
    #[reflect(skip, meta(i = 2, v = vec![1_u8, 2]))] pub Hid,
    /// b
    #[reflect(meta(i = 2, v = vec![1_u8, 2]))] pub String,
);
#[allow(unused_variables, unused_mut, clippy::all)]
impl Modeled for PlT1x {
    fn t() -> T {
        T::TupleStruct { name: std::any::type_name::<Self>(), fields: vec![FieldT { name: None, ty: <u8 as Modeled>::t, with: None, meta: vec![], docs: vec![] }, FieldT { name: None, ty: <String as Modeled>::t, with: None, meta: vec![("i", || Value::from(2_i32)), ("v", || Value::List(vec![Value::u8(1), Value::u8(2)]))], docs: vec![" b"] }], meta: vec![("i", || Value::from(2_i32)), ("v", || Value::List(vec![Value::u8(1), Value::u8(2)]))], docs: vec![" type"] }
    }
    fn m(&self) -> M {
        M::TupleStruct(vec![self.0.m(), self.2.m()])
    }
    fn hidden(&self) -> Vec<u8> {
        vec![self.1.0]
    }
    fn vals(n: usize, d: usize) -> Vec<Self> {
        let l0 = <u8 as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); let l2 = <String as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); combos(&[l0.len(), l2.len()], n.max(1)).into_iter().map(|c: Vec<usize>| Self(l0[c[0]].dup(), Hid(2), l2[c[1]].dup())).collect::<Vec<Self>>()
    }
    fn into_v(self) -> Option<Value> { Some(self.into()) }
    fn dup(&self) -> Self {
        Self(self.0.dup(), Hid(self.1.0), self.2.dup())
    }
    fn dfmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        std::fmt::Debug::fmt(self, f)
    }
}

#[allow(dead_code)]
#[derive(Reflect, Clone, Debug)]
pub struct PlS2m {
    pub a: u8,
    #[reflect(skip, meta(i = 1, s = "text"))] pub h: Hid,
    pub b: String,
}
#[allow(unused_variables, unused_mut, clippy::all)]
impl Modeled for PlS2m {
    fn t() -> T {
        T::Struct { name: std::any::type_name::<Self>(), fields: vec![FieldT { name: Some("a"), ty: <u8 as Modeled>::t, with: None, meta: vec![], docs: vec![] }, FieldT { name: Some("b"), ty: <String as Modeled>::t, with: None, meta: vec![], docs: vec![] }], meta: vec![], docs: vec![] }
    }
    fn m(&self) -> M {
        M::Struct(vec![("a".to_owned(), self.a.m()), ("b".to_owned(), self.b.m())])
    }
    fn hidden(&self) -> Vec<u8> {
        vec![self.h.0]
    }
    fn vals(n: usize, d: usize) -> Vec<Self> {
        let l0 = <u8 as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); let l2 = <String as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); combos(&[l0.len(), l2.len()], n.max(1)).into_iter().map(|c: Vec<usize>| Self { a: l0[c[0]].dup(), h: Hid(2), b: l2[c[1]].dup() }).collect::<Vec<Self>>()
    }
    fn into_v(self) -> Option<Value> { Some(self.into()) }
    fn dup(&self) -> Self {
        Self { a: self.a.dup(), h: Hid(self.h.0), b: self.b.dup() }
    }
    fn dfmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        std::fmt::Debug::fmt(self, f)
    }
}

#[allow(dead_code)]
#[derive(Reflect, Clone, Debug)]
pub struct PlT2m(
    pub u8,
    #[reflect(skip, meta(i = 1, s = "text"))] pub Hid,
    pub String,
);
#[allow(unused_variables, unused_mut, clippy::all)]
impl Modeled for PlT2m {
    fn t() -> T {
        T::TupleStruct { name: std::any::type_name::<Self>(), fields: vec![FieldT { name: None, ty: <u8 as Modeled>::t, with: None, meta: vec![], docs: vec![] }, FieldT { name: None, ty: <String as Modeled>::t, with: None, meta: vec![], docs: vec![] }], meta: vec![], docs: vec![] }
    }
    fn m(&self) -> M {
        M::TupleStruct(vec![self.0.m(), self.2.m()])
    }
    fn hidden(&self) -> Vec<u8> {
        vec![self.1.0]
    }
    fn vals(n: usize, d: usize) -> Vec<Self> {
        let l0 = <u8 as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); let l2 = <String as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); combos(&[l0.len(), l2.len()], n.max(1)).into_iter().map(|c: Vec<usize>| Self(l0[c[0]].dup(), Hid(2), l2[c[1]].dup())).collect::<Vec<Self>>()
    }
    fn into_v(self) -> Option<Value> { Some(self.into()) }
    fn dup(&self) -> Self {
        Self(self.0.dup(), Hid(self.1.0), self.2.dup())
    }
    fn dfmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        std::fmt::Debug::fmt(self, f)
    }
}

#[allow(dead_code)]
#[derive(Reflect, Clone, Debug)]
pub struct PlS2d {
    pub a: u8,
    /// h docs
    /// more
    #[reflect(skip)] pub h: Hid,
    pub b: String,
}
#[allow(unused_variables, unused_mut, clippy::all)]
impl Modeled for PlS2d {
    fn t() -> T {
        T::Struct { name: std::any::type_name::<Self>(), fields: vec![FieldT { name: Some("a"), ty: <u8 as Modeled>::t, with: None, meta: vec![], docs: vec![] }, FieldT { name: Some("b"), ty: <String as Modeled>::t, with: None, meta: vec![], docs: vec![] }], meta: vec![], docs: vec![] }
    }
    fn m(&self) -> M {
        M::Struct(vec![("a".to_owned(), self.a.m()), ("b".to_owned(), self.b.m())])
    }
    fn hidden(&self) -> Vec<u8> {
        vec![self.h.0]
    }
    fn vals(n: usize, d: usize) -> Vec<Self> {
        let l0 = <u8 as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); let l2 = <String as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); combos(&[l0.len(), l2.len()], n.max(1)).into_iter().map(|c: Vec<usize>| Self { a: l0[c[0]].dup(), h: Hid(2), b: l2[c[1]].dup() }).collect::<Vec<Self>>()
    }
    fn into_v(self) -> Option<Value> { Some(self.into()) }
    fn dup(&self) -> Self {
        Self { a: self.a.dup(), h: Hid(self.h.0), b: self.b.dup() }
    }
    fn dfmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        std::fmt::Debug::fmt(self, f)
    }
}

#[allow(dead_code)]
#[derive(Reflect, Clone, Debug)]
pub struct PlT2d(
    pub u8,
    /// h docs
    /// more
    #[reflect(skip)] pub Hid,
    pub String,
);
#[allow(unused_variables, unused_mut, clippy::all)]
impl Modeled for PlT2d {
    fn t() -> T {
        T::TupleStruct { name: std::any::type_name::<Self>(), fields: vec![FieldT { name: None, ty: <u8 as Modeled>::t, with: None, meta: vec![], docs: vec![] }, FieldT { name: None, ty: <String as Modeled>::t, with: None, meta: vec![], docs: vec![] }], meta: vec![], docs: vec![] }
    }
    fn m(&self) -> M {
        M::TupleStruct(vec![self.0.m(), self.2.m()])
    }
    fn hidden(&self) -> Vec<u8> {
        vec![self.1.0]
    }
    fn vals(n: usize, d: usize) -> Vec<Self> {
        let l0 = <u8 as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); let l2 = <String as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); combos(&[l0.len(), l2.len()], n.max(1)).into_iter().map(|c: Vec<usize>| Self(l0[c[0]].dup(), Hid(2), l2[c[1]].dup())).collect::<Vec<Self>>()
    }
    fn into_v(self) -> Option<Value> { Some(self.into()) }
    fn dup(&self) -> Self {
        Self(self.0.dup(), Hid(self.1.0), self.2.dup())
    }
    fn dfmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        std::fmt::Debug::fmt(self, f)
    }
}

#[allow(dead_code)]
/// type
#[derive(Reflect, Clone, Debug)]
#[reflect(meta(i = 2, v = vec![1_u8, 2]))]
pub struct PlS2x {
    /// a
    #[reflect(meta(i = 2, v = vec![1_u8, 2]))] pub a: u8,
    #[reflect(skip)] pub h: Hid,
    /// b
    #[reflect(meta(i = 2, v = vec![1_u8, 2]))] pub b: String,
}
#[allow(unused_variables, unused_mut, clippy::all)]
impl Modeled for PlS2x {
    fn t() -> T {
        T::Struct { name: std::any::type_name::<Self>(), fields: vec![FieldT { name: Some("a"), ty: <u8 as Modeled>::t, with: None, meta: vec![("i", || Value::from(2_i32)), ("v", || Value::List(vec![Value::u8(1), Value::u8(2)]))], docs: vec![" a"] }, FieldT { name: Some("b"), ty: <String as Modeled>::t, with: None, meta: vec![("i", || Value::from(2_i32)), ("v", || Value::List(vec![Value::u8(1), Value::u8(2)]))], docs: vec![" b"] }], meta: vec![("i", || Value::from(2_i32)), ("v", || Value::List(vec![Value::u8(1), Value::u8(2)]))], docs: vec![" type"] }
    }
    fn m(&self) -> M {
        M::Struct(vec![("a".to_owned(), self.a.m()), ("b".to_owned(), self.b.m())])
    }
    fn hidden(&self) -> Vec<u8> {
        vec![self.h.0]
    }
    fn vals(n: usize, d: usize) -> Vec<Self> {
        let l0 = <u8 as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); let l2 = <String as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); combos(&[l0.len(), l2.len()], n.max(1)).into_iter().map(|c: Vec<usize>| Self { a: l0[c[0]].dup(), h: Hid(2), b: l2[c[1]].dup() }).collect::<Vec<Self>>()
    }
    fn into_v(self) -> Option<Value> { Some(self.into()) }
    fn dup(&self) -> Self {
        Self { a: self.a.dup(), h: Hid(self.h.0), b: self.b.dup() }
    }
    fn dfmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        std::fmt::Debug::fmt(self, f)
    }
}

#[allow(dead_code)]
/// type
#[derive(Reflect, Clone, Debug)]
#[reflect(meta(i = 2, v = vec![1_u8, 2]))]
pub struct PlT2x(
    /// a
    #[reflect(meta(i = 2, v = vec![1_u8, 2]))] pub u8,
    #[reflect(skip)] pub Hid,
    /// b
    #[reflect(meta(i = 2, v = vec![1_u8, 2]))] pub String,
);
#[allow(unused_variables, unused_mut, clippy::all)]
impl Modeled for PlT2x {
    fn t() -> T {
        T::TupleStruct { name: std::any::type_name::<Self>(), fields: vec![FieldT { name: None, ty: <u8 as Modeled>::t, with: None, meta: vec![("i", || Value::from(2_i32)), ("v", || Value::List(vec![Value::u8(1), Value::u8(2)]))], docs: vec![" a"] }, FieldT { name: None, ty: <String as Modeled>::t, with: None, meta: vec![("i", || Value::from(2_i32)), ("v", || Value::List(vec![Value::u8(1), Value::u8(2)]))], docs: vec![" b"] }], meta: vec![("i", || Value::from(2_i32)), ("v", || Value::List(vec![Value::u8(1), Value::u8(2)]))], docs: vec![" type"] }
    }
    fn m(&self) -> M {
        M::TupleStruct(vec![self.0.m(), self.2.m()])
    }
    fn hidden(&self) -> Vec<u8> {
        vec![self.1.0]
    }
    fn vals(n: usize, d: usize) -> Vec<Self> {
        let l0 = <u8 as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); let l2 = <String as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); combos(&[l0.len(), l2.len()], n.max(1)).into_iter().map(|c: Vec<usize>| Self(l0[c[0]].dup(), Hid(2), l2[c[1]].dup())).collect::<Vec<Self>>()
    }
    fn into_v(self) -> Option<Value> { Some(self.into()) }
    fn dup(&self) -> Self {
        Self(self.0.dup(), Hid(self.1.0), self.2.dup())
    }
    fn dfmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        std::fmt::Debug::fmt(self, f)
    }
}

#[allow(dead_code)]
#[derive(Reflect, Clone, Debug)]
pub struct PlS3m {
    pub a: u8,
    #[reflect(skip)] pub h: Hid,
    #[reflect(meta(i = 1, s = "text"))] pub b: String,
}
#[allow(unused_variables, unused_mut, clippy::all)]
impl Modeled for PlS3m {
    fn t() -> T {
        T::Struct { name: std::any::type_name::<Self>(), fields: vec![FieldT { name: Some("a"), ty: <u8 as Modeled>::t, with: None, meta: vec![], docs: vec![] }, FieldT { name: Some("b"), ty: <String as Modeled>::t, with: None, meta: vec![("i", || Value::from(1_i32)), ("s", || Value::from("text"))], docs: vec![] }], meta: vec![], docs: vec![] }
    }
    fn m(&self) -> M {
        M::Struct(vec![("a".to_owned(), self.a.m()), ("b".to_owned(), self.b.m())])
    }
    fn hidden(&self) -> Vec<u8> {
        vec![self.h.0]
    }
    fn vals(n: usize, d: usize) -> Vec<Self> {
        let l0 = <u8 as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); let l2 = <String as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); combos(&[l0.len(), l2.len()], n.max(1)).into_iter().map(|c: Vec<usize>| Self { a: l0[c[0]].dup(), h: Hid(2), b: l2[c[1]].dup() }).collect::<Vec<Self>>()
    }
    fn into_v(self) -> Option<Value> { Some(self.into()) }
    fn dup(&self) -> Self {
        Self { a: self.a.dup(), h: Hid(self.h.0), b: self.b.dup() }
    }
    fn dfmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        std::fmt::Debug::fmt(self, f)
    }
}

#[allow(dead_code)]
#[derive(Reflect, Clone, Debug)]
pub struct PlT3m(
    pub u8,
    #[reflect(skip)] pub Hid,
    #[reflect(meta(i = 1, s = "text"))] pub String,
);
#[allow(unused_variables, unused_mut, clippy::all)]
impl Modeled for PlT3m {
    fn t() -> T {
        T::TupleStruct { name: std::any::type_name::<Self>(), fields: vec![FieldT { name: None, ty: <u8 as Modeled>::t, with: None, meta: vec![], docs: vec![] }, FieldT { name: None, ty: <String as Modeled>::t, with: None, meta: vec![("i", || Value::from(1_i32)), ("s", || Value::from("text"))], docs: vec![] }], meta: vec![], docs: vec![] }
    }
    fn m(&self) -> M {
        M::TupleStruct(vec![self.0.m(), self.2.m()])
    }
    fn hidden(&self) -> Vec<u8> {
        vec![self.1.0]
    }
    fn vals(n: usize, d: usize) -> Vec<Self> {
        let l0 = <u8 as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); let l2 = <String as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); combos(&[l0.len(), l2.len()], n.max(1)).into_iter().map(|c: Vec<usize>| Self(l0[c[0]].dup(), Hid(2), l2[c[1]].dup())).collect::<Vec<Self>>()
    }
    fn into_v(self) -> Option<Value> { Some(self.into()) }
    fn dup(&self) -> Self {
        Self(self.0.dup(), Hid(self.1.0), self.2.dup())
    }
    fn dfmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        std::fmt::Debug::fmt(self, f)
    }
}

#[allow(dead_code)]
#[derive(Reflect, Clone, Debug)]
pub struct PlS3d {
    pub a: u8,
    #[reflect(skip)] pub h: Hid,
    /// b docs
    /// more
    pub b: String,
}
#[allow(unused_variables, unused_mut, clippy::all)]
impl Modeled for PlS3d {
    fn t() -> T {
        T::Struct { name: std::any::type_name::<Self>(), fields: vec![FieldT { name: Some("a"), ty: <u8 as Modeled>::t, with: None, meta: vec![], docs: vec![] }, FieldT { name: Some("b"), ty: <String as Modeled>::t, with: None, meta: vec![], docs: vec![" b docs", " more"] }], meta: vec![], docs: vec![] }
    }
    fn m(&self) -> M {
        M::Struct(vec![("a".to_owned(), self.a.m()), ("b".to_owned(), self.b.m())])
    }
    fn hidden(&self) -> Vec<u8> {
        vec![self.h.0]
    }
    fn vals(n: usize, d: usize) -> Vec<Self> {
        let l0 = <u8 as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); let l2 = <String as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); combos(&[l0.len(), l2.len()], n.max(1)).into_iter().map(|c: Vec<usize>| Self { a: l0[c[0]].dup(), h: Hid(2), b: l2[c[1]].dup() }).collect::<Vec<Self>>()
    }
    fn into_v(self) -> Option<Value> { Some(self.into()) }
    fn dup(&self) -> Self {
        Self { a: self.a.dup(), h: Hid(self.h.0), b: self.b.dup() }
    }
    fn dfmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        std::fmt::Debug::fmt(self, f)
    }
}

#[allow(dead_code)]
#[derive(Reflect, Clone, Debug)]
pub struct PlT3d(
    pub u8,
    #[reflect(skip)] pub Hid,
    /// b docs
    /// more
    pub String,
);
#[allow(unused_variables, unused_mut, clippy::all)]
impl Modeled for PlT3d {
    fn t() -> T {
        T::TupleStruct { name: std::any::type_name::<Self>(), fields: vec![FieldT { name: None, ty: <u8 as Modeled>::t, with: None, meta: vec![], docs: vec![] }, FieldT { name: None, ty: <String as Modeled>::t, with: None, meta: vec![], docs: vec![" b docs", " more"] }], meta: vec![], docs: vec![] }
    }
    fn m(&self) -> M {
        M::TupleStruct(vec![self.0.m(), self.2.m()])
    }
    fn hidden(&self) -> Vec<u8> {
        vec![self.1.0]
    }
    fn vals(n: usize, d: usize) -> Vec<Self> {
        let l0 = <u8 as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); let l2 = <String as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); combos(&[l0.len(), l2.len()], n.max(1)).into_iter().map(|c: Vec<usize>| Self(l0[c[0]].dup(), Hid(2), l2[c[1]].dup())).collect::<Vec<Self>>()
    }
    fn into_v(self) -> Option<Value> { Some(self.into()) }
    fn dup(&self) -> Self {
        Self(self.0.dup(), Hid(self.1.0), self.2.dup())
    }
    fn dfmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        std::fmt::Debug::fmt(self, f)
    }
}

#[allow(dead_code)]
/// type
#[derive(Reflect, Clone, Debug)]
#[reflect(meta(i = 2, v = vec![1_u8, 2]))]
pub struct PlS3x {
    /// a
    #[reflect(meta(i = 2, v = vec![1_u8, 2]))] pub a: u8,
    /// h
    #[reflect(skip, meta(i = 2, v = vec![1_u8, 2]))] pub h: Hid,
    pub b: String,
}
#[allow(unused_variables, unused_mut, clippy::all)]
impl Modeled for PlS3x {
    fn t() -> T {
        T::Struct { name: std::any::type_name::<Self>(), fields: vec![FieldT { name: Some("a"), ty: <u8 as Modeled>::t, with: None, meta: vec![("i", || Value::from(2_i32)), ("v", || Value::List(vec![Value::u8(1), Value::u8(2)]))], docs: vec![" a"] }, FieldT { name: Some("b"), ty: <String as Modeled>::t, with: None, meta: vec![], docs: vec![] }], meta: vec![("i", || Value::from(2_i32)), ("v", || Value::List(vec![Value::u8(1), Value::u8(2)]))], docs: vec![" type"] }
    }
    fn m(&self) -> M {
        M::Struct(vec![("a".to_owned(), self.a.m()), ("b".to_owned(), self.b.m())])
    }
    fn hidden(&self) -> Vec<u8> {
        vec![self.h.0]
    }
    fn vals(n: usize, d: usize) -> Vec<Self> {
        let l0 = <u8 as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); let l2 = <String as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); combos(&[l0.len(), l2.len()], n.max(1)).into_iter().map(|c: Vec<usize>| Self { a: l0[c[0]].dup(), h: Hid(2), b: l2[c[1]].dup() }).collect::<Vec<Self>>()
    }
    fn into_v(self) -> Option<Value> { Some(self.into()) }
    fn dup(&self) -> Self {
        Self { a: self.a.dup(), h: Hid(self.h.0), b: self.b.dup() }
    }
    fn dfmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        std::fmt::Debug::fmt(self, f)
    }
}

#[allow(dead_code)]
/// type
#[derive(Reflect, Clone, Debug)]
#[reflect(meta(i = 2, v = vec![1_u8, 2]))]
pub struct PlT3x(
    /// a
    #[reflect(meta(i = 2, v = vec![1_u8, 2]))] pub u8,
    /// h
    #[reflect(skip, meta(i = 2, v = vec![1_u8, 2]))] pub Hid,
    pub String,
);
#[allow(unused_variables, unused_mut, clippy::all)]
impl Modeled for PlT3x {
    fn t() -> T {
        T::TupleStruct { name: std::any::type_name::<Self>(), fields: vec![FieldT { name: None, ty: <u8 as Modeled>::t, with: None, meta: vec![("i", || Value::from(2_i32)), ("v", || Value::List(vec![Value::u8(1), Value::u8(2)]))], docs: vec![" a"] }, FieldT { name: None, ty: <String as Modeled>::t, with: None, meta: vec![], docs: vec![] }], meta: vec![("i", || Value::from(2_i32)), ("v", || Value::List(vec![Value::u8(1), Value::u8(2)]))], docs: vec![" type"] }
    }
    fn m(&self) -> M {
        M::TupleStruct(vec![self.0.m(), self.2.m()])
    }
    fn hidden(&self) -> Vec<u8> {
        vec![self.1.0]
    }
    fn vals(n: usize, d: usize) -> Vec<Self> {
        let l0 = <u8 as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); let l2 = <String as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); combos(&[l0.len(), l2.len()], n.max(1)).into_iter().map(|c: Vec<usize>| Self(l0[c[0]].dup(), Hid(2), l2[c[1]].dup())).collect::<Vec<Self>>()
    }
    fn into_v(self) -> Option<Value> { Some(self.into()) }
    fn dup(&self) -> Self {
        Self(self.0.dup(), Hid(self.1.0), self.2.dup())
    }
    fn dfmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        std::fmt::Debug::fmt(self, f)
    }
}

#[allow(dead_code)]
/// type docs
#[derive(Reflect, Clone, Debug)]
#[reflect(meta(ktype = "type"))]
pub struct PlSall {
    /// a docs
    #[reflect(meta(ka = "a"))] pub a: u8,
    /// h docs
    #[reflect(skip, meta(kh = "h"))] pub h: Hid,
    /// b docs
    #[reflect(meta(kb = "b"))] pub b: String,
}
#[allow(unused_variables, unused_mut, clippy::all)]
impl Modeled for PlSall {
    fn t() -> T {
        T::Struct { name: std::any::type_name::<Self>(), fields: vec![FieldT { name: Some("a"), ty: <u8 as Modeled>::t, with: None, meta: vec![("ka", || Value::from("a"))], docs: vec![" a docs"] }, FieldT { name: Some("b"), ty: <String as Modeled>::t, with: None, meta: vec![("kb", || Value::from("b"))], docs: vec![" b docs"] }], meta: vec![("ktype", || Value::from("type"))], docs: vec![" type docs"] }
    }
    fn m(&self) -> M {
        M::Struct(vec![("a".to_owned(), self.a.m()), ("b".to_owned(), self.b.m())])
    }
    fn hidden(&self) -> Vec<u8> {
        vec![self.h.0]
    }
    fn vals(n: usize, d: usize) -> Vec<Self> {
        let l0 = <u8 as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); let l2 = <String as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); combos(&[l0.len(), l2.len()], n.max(1)).into_iter().map(|c: Vec<usize>| Self { a: l0[c[0]].dup(), h: Hid(2), b: l2[c[1]].dup() }).collect::<Vec<Self>>()
    }
    fn into_v(self) -> Option<Value> { Some(self.into()) }
    fn dup(&self) -> Self {
        Self { a: self.a.dup(), h: Hid(self.h.0), b: self.b.dup() }
    }
    fn dfmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        std::fmt::Debug::fmt(self, f)
    }
}

#[allow(dead_code)]
/// type docs
#[derive(Reflect, Clone, Debug)]
#[reflect(meta(ktype = "type"))]
pub struct PlTall(
    /// a docs
    #[reflect(meta(ka = "a"))] pub u8,
    /// h docs
    #[reflect(skip, meta(kh = "h"))] pub Hid,
    /// b docs
    #[reflect(meta(kb = "b"))] pub String,
);
#[allow(unused_variables, unused_mut, clippy::all)]
impl Modeled for PlTall {
    fn t() -> T {
        T::TupleStruct { name: std::any::type_name::<Self>(), fields: vec![FieldT { name: None, ty: <u8 as Modeled>::t, with: None, meta: vec![("ka", || Value::from("a"))], docs: vec![" a docs"] }, FieldT { name: None, ty: <String as Modeled>::t, with: None, meta: vec![("kb", || Value::from("b"))], docs: vec![" b docs"] }], meta: vec![("ktype", || Value::from("type"))], docs: vec![" type docs"] }
    }
    fn m(&self) -> M {
        M::TupleStruct(vec![self.0.m(), self.2.m()])
    }
    fn hidden(&self) -> Vec<u8> {
        vec![self.1.0]
    }
    fn vals(n: usize, d: usize) -> Vec<Self> {
        let l0 = <u8 as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); let l2 = <String as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); combos(&[l0.len(), l2.len()], n.max(1)).into_iter().map(|c: Vec<usize>| Self(l0[c[0]].dup(), Hid(2), l2[c[1]].dup())).collect::<Vec<Self>>()
    }
    fn into_v(self) -> Option<Value> { Some(self.into()) }
    fn dup(&self) -> Self {
        Self(self.0.dup(), Hid(self.1.0), self.2.dup())
    }
    fn dfmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        std::fmt::Debug::fmt(self, f)
    }
}

#[allow(dead_code)]
#[derive(Reflect, Clone, Debug)]
#[reflect(meta(i = 1, s = "text"))]
pub enum PlE0m {
    A,
    #[reflect(skip)]
    H(
        u8,
    ),
    B {
        x: u8,
        y: String,
    },
    C(
        u8,
        String,
    ),
}
#[allow(unused_variables, unused_mut, clippy::all)]
impl Modeled for PlE0m {
    fn t() -> T {
        T::Enum { name: std::any::type_name::<Self>(), variants: vec![VariantT { name: "A", kind: VK::Unit, fields: vec![], meta: vec![], docs: vec![] }, VariantT { name: "B", kind: VK::Struct, fields: vec![FieldT { name: Some("x"), ty: <u8 as Modeled>::t, with: None, meta: vec![], docs: vec![] }, FieldT { name: Some("y"), ty: <String as Modeled>::t, with: None, meta: vec![], docs: vec![] }], meta: vec![], docs: vec![] }, VariantT { name: "C", kind: VK::Tuple, fields: vec![FieldT { name: None, ty: <u8 as Modeled>::t, with: None, meta: vec![], docs: vec![] }, FieldT { name: None, ty: <String as Modeled>::t, with: None, meta: vec![], docs: vec![] }], meta: vec![], docs: vec![] }], skipped: vec!["H"], meta: vec![("i", || Value::from(1_i32)), ("s", || Value::from("text"))], docs: vec![] }
    }
    fn m(&self) -> M {
        match self {
            Self::A => M::Enum("A".into(), VK::Unit, vec![]),
            Self::H(x0) => M::Enum("H".into(), VK::Tuple, vec![]),
            Self::B { x: x0, y: x1 } => M::Enum("B".into(), VK::Struct, vec![(Some("x".into()), x0.m()), (Some("y".into()), x1.m())]),
            Self::C(x0, x1) => M::Enum("C".into(), VK::Tuple, vec![(None, x0.m()), (None, x1.m())]),
        }
    }
    fn hidden(&self) -> Vec<u8> {
        match self {
            _ => vec![],
        }
    }
    fn vals(n: usize, d: usize) -> Vec<Self> {
        let mut per: Vec<Vec<Self>> = vec![];
        per.push(vec![Self::A]);
        per.push({ let l0 = <u8 as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); let l1 = <String as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); combos(&[l0.len(), l1.len()], n.max(1)).into_iter().map(|c: Vec<usize>| Self::B { x: l0[c[0]].dup(), y: l1[c[1]].dup() }).collect::<Vec<Self>>() });
        per.push({ let l0 = <u8 as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); let l1 = <String as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); combos(&[l0.len(), l1.len()], n.max(1)).into_iter().map(|c: Vec<usize>| Self::C(l0[c[0]].dup(), l1[c[1]].dup())).collect::<Vec<Self>>() });
        interleave(per, n)
    }
    fn into_v(self) -> Option<Value> { Some(self.into()) }
    fn dup(&self) -> Self {
        match self {
            Self::A => Self::A,
            Self::H(x0) => Self::H(x0.dup()),
            Self::B { x: x0, y: x1 } => Self::B { x: x0.dup(), y: x1.dup() },
            Self::C(x0, x1) => Self::C(x0.dup(), x1.dup()),
        }
    }
    fn dfmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        std::fmt::Debug::fmt(self, f)
    }
}

#[allow(dead_code)]
/// type docs
/// more
#[derive(Reflect, Clone, Debug)]
pub enum PlE0d {
    A,
    #[reflect(skip)]
    H(
        u8,
    ),
    B {
        x: u8,
        y: String,
    },
    C(
        u8,
        String,
    ),
}
#[allow(unused_variables, unused_mut, clippy::all)]
impl Modeled for PlE0d {
    fn t() -> T {
        T::Enum { name: std::any::type_name::<Self>(), variants: vec![VariantT { name: "A", kind: VK::Unit, fields: vec![], meta: vec![], docs: vec![] }, VariantT { name: "B", kind: VK::Struct, fields: vec![FieldT { name: Some("x"), ty: <u8 as Modeled>::t, with: None, meta: vec![], docs: vec![] }, FieldT { name: Some("y"), ty: <String as Modeled>::t, with: None, meta: vec![], docs: vec![] }], meta: vec![], docs: vec![] }, VariantT { name: "C", kind: VK::Tuple, fields: vec![FieldT { name: None, ty: <u8 as Modeled>::t, with: None, meta: vec![], docs: vec![] }, FieldT { name: None, ty: <String as Modeled>::t, with: None, meta: vec![], docs: vec![] }], meta: vec![], docs: vec![] }], skipped: vec!["H"], meta: vec![], docs: vec![" type docs", " more"] }
    }
    fn m(&self) -> M {
        match self {
            Self::A => M::Enum("A".into(), VK::Unit, vec![]),
            Self::H(x0) => M::Enum("H".into(), VK::Tuple, vec![]),
            Self::B { x: x0, y: x1 } => M::Enum("B".into(), VK::Struct, vec![(Some("x".into()), x0.m()), (Some("y".into()), x1.m())]),
            Self::C(x0, x1) => M::Enum("C".into(), VK::Tuple, vec![(None, x0.m()), (None, x1.m())]),
        }
    }
    fn hidden(&self) -> Vec<u8> {
        match self {
            _ => vec![],
        }
    }
    fn vals(n: usize, d: usize) -> Vec<Self> {
        let mut per: Vec<Vec<Self>> = vec![];
        per.push(vec![Self::A]);
        per.push({ let l0 = <u8 as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); let l1 = <String as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); combos(&[l0.len(), l1.len()], n.max(1)).into_iter().map(|c: Vec<usize>| Self::B { x: l0[c[0]].dup(), y: l1[c[1]].dup() }).collect::<Vec<Self>>() });
        per.push({ let l0 = <u8 as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); let l1 = <String as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); combos(&[l0.len(), l1.len()], n.max(1)).into_iter().map(|c: Vec<usize>| Self::C(l0[c[0]].dup(), l1[c[1]].dup())).collect::<Vec<Self>>() });
        interleave(per, n)
    }
    fn into_v(self) -> Option<Value> { Some(self.into()) }
    fn dup(&self) -> Self {
        match self {
            Self::A => Self::A,
            Self::H(x0) => Self::H(x0.dup()),
            Self::B { x: x0, y: x1 } => Self::B { x: x0.dup(), y: x1.dup() },
            Self::C(x0, x1) => Self::C(x0.dup(), x1.dup()),
        }
    }
    fn dfmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        std::fmt::Debug::fmt(self, f)
    }
}

#[allow(dead_code)]
#[derive(Reflect, Clone, Debug)]
pub enum PlE0x {
    /// A
    #[reflect(meta(i = 2, v = vec![1_u8, 2]))]
    A,
    /// H
    #[reflect(skip, meta(i = 2, v = vec![1_u8, 2]))]
    H(
        u8,
    ),
    /// B
    #[reflect(meta(i = 2, v = vec![1_u8, 2]))]
    B {
        /// bx
        #[reflect(meta(i = 2, v = vec![1_u8, 2]))] x: u8,
        /// by
        #[reflect(meta(i = 2, v = vec![1_u8, 2]))] y: String,
    },
    /// C
    #[reflect(meta(i = 2, v = vec![1_u8, 2]))]
    C(
        /// c0
        #[reflect(meta(i = 2, v = vec![1_u8, 2]))] u8,
        /// c1
        #[reflect(meta(i = 2, v = vec![1_u8, 2]))] String,
    ),
}
#[allow(unused_variables, unused_mut, clippy::all)]
impl Modeled for PlE0x {
    fn t() -> T {
        T::Enum { name: std::any::type_name::<Self>(), variants: vec![VariantT { name: "A", kind: VK::Unit, fields: vec![], meta: vec![("i", || Value::from(2_i32)), ("v", || Value::List(vec![Value::u8(1), Value::u8(2)]))], docs: vec![" A"] }, VariantT { name: "B", kind: VK::Struct, fields: vec![FieldT { name: Some("x"), ty: <u8 as Modeled>::t, with: None, meta: vec![("i", || Value::from(2_i32)), ("v", || Value::List(vec![Value::u8(1), Value::u8(2)]))], docs: vec![" bx"] }, FieldT { name: Some("y"), ty: <String as Modeled>::t, with: None, meta: vec![("i", || Value::from(2_i32)), ("v", || Value::List(vec![Value::u8(1), Value::u8(2)]))], docs: vec![" by"] }], meta: vec![("i", || Value::from(2_i32)), ("v", || Value::List(vec![Value::u8(1), Value::u8(2)]))], docs: vec![" B"] }, VariantT { name: "C", kind: VK::Tuple, fields: vec![FieldT { name: None, ty: <u8 as Modeled>::t, with: None, meta: vec![("i", || Value::from(2_i32)), ("v", || Value::List(vec![Value::u8(1), Value::u8(2)]))], docs: vec![" c0"] }, FieldT { name: None, ty: <String as Modeled>::t, with: None, meta: vec![("i", || Value::from(2_i32)), ("v", || Value::List(vec![Value::u8(1), Value::u8(2)]))], docs: vec![" c1"] }], meta: vec![("i", || Value::from(2_i32)), ("v", || Value::List(vec![Value::u8(1), Value::u8(2)]))], docs: vec![" C"] }], skipped: vec!["H"], meta: vec![], docs: vec![] }
    }
    fn m(&self) -> M {
        match self {
            Self::A => M::Enum("A".into(), VK::Unit, vec![]),
            Self::H(x0) => M::Enum("H".into(), VK::Tuple, vec![]),
            Self::B { x: x0, y: x1 } => M::Enum("B".into(), VK::Struct, vec![(Some("x".into()), x0.m()), (Some("y".into()), x1.m())]),
            Self::C(x0, x1) => M::Enum("C".into(), VK::Tuple, vec![(None, x0.m()), (None, x1.m())]),
        }
    }
    fn hidden(&self) -> Vec<u8> {
        match self {
            _ => vec![],
        }
    }
    fn vals(n: usize, d: usize) -> Vec<Self> {
        let mut per: Vec<Vec<Self>> = vec![];
        per.push(vec![Self::A]);
        per.push({ let l0 = <u8 as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); let l1 = <String as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); combos(&[l0.len(), l1.len()], n.max(1)).into_iter().map(|c: Vec<usize>| Self::B { x: l0[c[0]].dup(), y: l1[c[1]].dup() }).collect::<Vec<Self>>() });
        per.push({ let l0 = <u8 as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); let l1 = <String as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); combos(&[l0.len(), l1.len()], n.max(1)).into_iter().map(|c: Vec<usize>| Self::C(l0[c[0]].dup(), l1[c[1]].dup())).collect::<Vec<Self>>() });
        interleave(per, n)
    }
    fn into_v(self) -> Option<Value> { Some(self.into()) }
    fn dup(&self) -> Self {
        match self {
            Self::A => Self::A,
            Self::H(x0) => Self::H(x0.dup()),
            Self::B { x: x0, y: x1 } => Self::B { x: x0.dup(), y: x1.dup() },
            Self::C(x0, x1) => Self::C(x0.dup(), x1.dup()),
        }
    }
    fn dfmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        std::fmt::Debug::fmt(self, f)
    }
}

#[allow(dead_code)]
#[derive(Reflect, Clone, Debug)]
pub enum PlE1m {
    #[reflect(meta(i = 1, s = "text"))]
    A,
    #[reflect(skip)]
    H(
        u8,
    ),
    B {
        x: u8,
        y: String,
    },
    C(
        u8,
        String,
    ),
}
#[allow(unused_variables, unused_mut, clippy::all)]
impl Modeled for PlE1m {
    fn t() -> T {
        T::Enum { name: std::any::type_name::<Self>(), variants: vec![VariantT { name: "A", kind: VK::Unit, fields: vec![], meta: vec![("i", || Value::from(1_i32)), ("s", || Value::from("text"))], docs: vec![] }, VariantT { name: "B", kind: VK::Struct, fields: vec![FieldT { name: Some("x"), ty: <u8 as Modeled>::t, with: None, meta: vec![], docs: vec![] }, FieldT { name: Some("y"), ty: <String as Modeled>::t, with: None, meta: vec![], docs: vec![] }], meta: vec![], docs: vec![] }, VariantT { name: "C", kind: VK::Tuple, fields: vec![FieldT { name: None, ty: <u8 as Modeled>::t, with: None, meta: vec![], docs: vec![] }, FieldT { name: None, ty: <String as Modeled>::t, with: None, meta: vec![], docs: vec![] }], meta: vec![], docs: vec![] }], skipped: vec!["H"], meta: vec![], docs: vec![] }
    }
    fn m(&self) -> M {
        match self {
            Self::A => M::Enum("A".into(), VK::Unit, vec![]),
            Self::H(x0) => M::Enum("H".into(), VK::Tuple, vec![]),
            Self::B { x: x0, y: x1 } => M::Enum("B".into(), VK::Struct, vec![(Some("x".into()), x0.m()), (Some("y".into()), x1.m())]),
            Self::C(x0, x1) => M::Enum("C".into(), VK::Tuple, vec![(None, x0.m()), (None, x1.m())]),
        }
    }
    fn hidden(&self) -> Vec<u8> {
        match self {
            _ => vec![],
        }
    }
    fn vals(n: usize, d: usize) -> Vec<Self> {
        let mut per: Vec<Vec<Self>> = vec![];
        per.push(vec![Self::A]);
        per.push({ let l0 = <u8 as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); let l1 = <String as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); combos(&[l0.len(), l1.len()], n.max(1)).into_iter().map(|c: Vec<usize>| Self::B { x: l0[c[0]].dup(), y: l1[c[1]].dup() }).collect::<Vec<Self>>() });
        per.push({ let l0 = <u8 as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); let l1 = <String as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); combos(&[l0.len(), l1.len()], n.max(1)).into_iter().map(|c: Vec<usize>| Self::C(l0[c[0]].dup(), l1[c[1]].dup())).collect::<Vec<Self>>() });
        interleave(per, n)
    }
    fn into_v(self) -> Option<Value> { Some(self.into()) }
    fn dup(&self) -> Self {
        match self {
            Self::A => Self::A,
            Self::H(x0) => Self::H(x0.dup()),
            Self::B { x: x0, y: x1 } => Self::B { x: x0.dup(), y: x1.dup() },
            Self::C(x0, x1) => Self::C(x0.dup(), x1.dup()),
        }
    }
    fn dfmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        std::fmt::Debug::fmt(self, f)
    }
}

#[allow(dead_code)]
#[derive(Reflect, Clone, Debug)]
pub enum PlE1d {
    /// A docs
    /// more
    A,
    #[reflect(skip)]
    H(
        u8,
    ),
    B {
        x: u8,
        y: String,
    },
    C(
        u8,
        String,
    ),
}
#[allow(unused_variables, unused_mut, clippy::all)]
impl Modeled for PlE1d {
    fn t() -> T {
        T::Enum { name: std::any::type_name::<Self>(), variants: vec![VariantT { name: "A", kind: VK::Unit, fields: vec![], meta: vec![], docs: vec![" A docs", " more"] }, VariantT { name: "B", kind: VK::Struct, fields: vec![FieldT { name: Some("x"), ty: <u8 as Modeled>::t, with: None, meta: vec![], docs: vec![] }, FieldT { name: Some("y"), ty: <String as Modeled>::t, with: None, meta: vec![], docs: vec![] }], meta: vec![], docs: vec![] }, VariantT { name: "C", kind: VK::Tuple, fields: vec![FieldT { name: None, ty: <u8 as Modeled>::t, with: None, meta: vec![], docs: vec![] }, FieldT { name: None, ty: <String as Modeled>::t, with: None, meta: vec![], docs: vec![] }], meta: vec![], docs: vec![] }], skipped: vec!["H"], meta: vec![], docs: vec![] }
    }
    fn m(&self) -> M {
        match self {
            Self::A => M::Enum("A".into(), VK::Unit, vec![]),
            Self::H(x0) => M::Enum("H".into(), VK::Tuple, vec![]),
            Self::B { x: x0, y: x1 } => M::Enum("B".into(), VK::Struct, vec![(Some("x".into()), x0.m()), (Some("y".into()), x1.m())]),
            Self::C(x0, x1) => M::Enum("C".into(), VK::Tuple, vec![(None, x0.m()), (None, x1.m())]),
        }
    }
    fn hidden(&self) -> Vec<u8> {
        match self {
            _ => vec![],
        }
    }
    fn vals(n: usize, d: usize) -> Vec<Self> {
        let mut per: Vec<Vec<Self>> = vec![];
        per.push(vec![Self::A]);
        per.push({ let l0 = <u8 as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); let l1 = <String as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); combos(&[l0.len(), l1.len()], n.max(1)).into_iter().map(|c: Vec<usize>| Self::B { x: l0[c[0]].dup(), y: l1[c[1]].dup() }).collect::<Vec<Self>>() });
        per.push({ let l0 = <u8 as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); let l1 = <String as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); combos(&[l0.len(), l1.len()], n.max(1)).into_iter().map(|c: Vec<usize>| Self::C(l0[c[0]].dup(), l1[c[1]].dup())).collect::<Vec<Self>>() });
        interleave(per, n)
    }
    fn into_v(self) -> Option<Value> { Some(self.into()) }
    fn dup(&self) -> Self {
        match self {
            Self::A => Self::A,
            Self::H(x0) => Self::H(x0.dup()),
            Self::B { x: x0, y: x1 } => Self::B { x: x0.dup(), y: x1.dup() },
            Self::C(x0, x1) => Self::C(x0.dup(), x1.dup()),
        }
    }
    fn dfmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        std::fmt::Debug::fmt(self, f)
    }
}

#[allow(dead_code)]
/// type
#[derive(Reflect, Clone, Debug)]
#[reflect(meta(i = 2, v = vec![1_u8, 2]))]
pub enum PlE1x {
    A,
    /// H
    #[reflect(skip, meta(i = 2, v = vec![1_u8, 2]))]
    H(
        u8,
    ),
    /// B
    #[reflect(meta(i = 2, v = vec![1_u8, 2]))]
    B {
        /// bx
        #[reflect(meta(i = 2, v = vec![1_u8, 2]))] x: u8,
        /// by
        #[reflect(meta(i = 2, v = vec![1_u8, 2]))] y: String,
    },
    /// C
    #[reflect(meta(i = 2, v = vec![1_u8, 2]))]
    C(
        /// c0
        #[reflect(meta(i = 2, v = vec![1_u8, 2]))] u8,
        /// c1
        #[reflect(meta(i = 2, v = vec![1_u8, 2]))] String,
    ),
}
#[allow(unused_variables, unused_mut, clippy::all)]
impl Modeled for PlE1x {
    fn t() -> T {
        T::Enum { name: std::any::type_name::<Self>(), variants: vec![VariantT { name: "A", kind: VK::Unit, fields: vec![], meta: vec![], docs: vec![] }, VariantT { name: "B", kind: VK::Struct, fields: vec![FieldT { name: Some("x"), ty: <u8 as Modeled>::t, with: None, meta: vec![("i", || Value::from(2_i32)), ("v", || Value::List(vec![Value::u8(1), Value::u8(2)]))], docs: vec![" bx"] }, FieldT { name: Some("y"), ty: <String as Modeled>::t, with: None, meta: vec![("i", || Value::from(2_i32)), ("v", || Value::List(vec![Value::u8(1), Value::u8(2)]))], docs: vec![" by"] }], meta: vec![("i", || Value::from(2_i32)), ("v", || Value::List(vec![Value::u8(1), Value::u8(2)]))], docs: vec![" B"] }, VariantT { name: "C", kind: VK::Tuple, fields: vec![FieldT { name: None, ty: <u8 as Modeled>::t, with: None, meta: vec![("i", || Value::from(2_i32)), ("v", || Value::List(vec![Value::u8(1), Value::u8(2)]))], docs: vec![" c0"] }, FieldT { name: None, ty: <String as Modeled>::t, with: None, meta: vec![("i", || Value::from(2_i32)), ("v", || Value::List(vec![Value::u8(1), Value::u8(2)]))], docs: vec![" c1"] }], meta: vec![("i", || Value::from(2_i32)), ("v", || Value::List(vec![Value::u8(1), Value::u8(2)]))], docs: vec![" C"] }], skipped: vec!["H"], meta: vec![("i", || Value::from(2_i32)), ("v", || Value::List(vec![Value::u8(1), Value::u8(2)]))], docs: vec![" type"] }
    }
    fn m(&self) -> M {
        match self {
            Self::A => M::Enum("A".into(), VK::Unit, vec![]),
            Self::H(x0) => M::Enum("H".into(), VK::Tuple, vec![]),
            Self::B { x: x0, y: x1 } => M::Enum("B".into(), VK::Struct, vec![(Some("x".into()), x0.m()), (Some("y".into()), x1.m())]),
            Self::C(x0, x1) => M::Enum("C".into(), VK::Tuple, vec![(None, x0.m()), (None, x1.m())]),
        }
    }
    fn hidden(&self) -> Vec<u8> {
        match self {
            _ => vec![],
        }
    }
    fn vals(n: usize, d: usize) -> Vec<Self> {
        let mut per: Vec<Vec<Self>> = vec![];
        per.push(vec![Self::A]);
        per.push({ let l0 = <u8 as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); let l1 = <String as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); combos(&[l0.len(), l1.len()], n.max(1)).into_iter().map(|c: Vec<usize>| Self::B { x: l0[c[0]].dup(), y: l1[c[1]].dup() }).collect::<Vec<Self>>() });
        per.push({ let l0 = <u8 as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); let l1 = <String as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); combos(&[l0.len(), l1.len()], n.max(1)).into_iter().map(|c: Vec<usize>| Self::C(l0[c[0]].dup(), l1[c[1]].dup())).collect::<Vec<Self>>() });
        interleave(per, n)
    }
    fn into_v(self) -> Option<Value> { Some(self.into()) }
    fn dup(&self) -> Self {
        match self {
            Self::A => Self::A,
            Self::H(x0) => Self::H(x0.dup()),
            Self::B { x: x0, y: x1 } => Self::B { x: x0.dup(), y: x1.dup() },
            Self::C(x0, x1) => Self::C(x0.dup(), x1.dup()),
        }
    }
    fn dfmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        std::fmt::Debug::fmt(self, f)
    }
}

#[allow(dead_code)]
#[derive(Reflect, Clone, Debug)]
pub enum PlE2m {
    A,
    #[reflect(skip, meta(i = 1, s = "text"))]
    H(
        u8,
    ),
    B {
        x: u8,
        y: String,
    },
    C(
        u8,
        String,
    ),
}
#[allow(unused_variables, unused_mut, clippy::all)]
impl Modeled for PlE2m {
    fn t() -> T {
        T::Enum { name: std::any::type_name::<Self>(), variants: vec![VariantT { name: "A", kind: VK::Unit, fields: vec![], meta: vec![], docs: vec![] }, VariantT { name: "B", kind: VK::Struct, fields: vec![FieldT { name: Some("x"), ty: <u8 as Modeled>::t, with: None, meta: vec![], docs: vec![] }, FieldT { name: Some("y"), ty: <String as Modeled>::t, with: None, meta: vec![], docs: vec![] }], meta: vec![], docs: vec![] }, VariantT { name: "C", kind: VK::Tuple, fields: vec![FieldT { name: None, ty: <u8 as Modeled>::t, with: None, meta: vec![], docs: vec![] }, FieldT { name: None, ty: <String as Modeled>::t, with: None, meta: vec![], docs: vec![] }], meta: vec![], docs: vec![] }], skipped: vec!["H"], meta: vec![], docs: vec![] }
    }
    fn m(&self) -> M {
        match self {
            Self::A => M::Enum("A".into(), VK::Unit, vec![]),
            Self::H(x0) => M::Enum("H".into(), VK::Tuple, vec![]),
            Self::B { x: x0, y: x1 } => M::Enum("B".into(), VK::Struct, vec![(Some("x".into()), x0.m()), (Some("y".into()), x1.m())]),
            Self::C(x0, x1) => M::Enum("C".into(), VK::Tuple, vec![(None, x0.m()), (None, x1.m())]),
        }
    }
    fn hidden(&self) -> Vec<u8> {
        match self {
            _ => vec![],
        }
    }
    fn vals(n: usize, d: usize) -> Vec<Self> {
        let mut per: Vec<Vec<Self>> = vec![];
        per.push(vec![Self::A]);
        per.push({ let l0 = <u8 as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); let l1 = <String as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); combos(&[l0.len(), l1.len()], n.max(1)).into_iter().map(|c: Vec<usize>| Self::B { x: l0[c[0]].dup(), y: l1[c[1]].dup() }).collect::<Vec<Self>>() });
        per.push({ let l0 = <u8 as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); let l1 = <String as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); combos(&[l0.len(), l1.len()], n.max(1)).into_iter().map(|c: Vec<usize>| Self::C(l0[c[0]].dup(), l1[c[1]].dup())).collect::<Vec<Self>>() });
        interleave(per, n)
    }
    fn into_v(self) -> Option<Value> { Some(self.into()) }
    fn dup(&self) -> Self {
        match self {
            Self::A => Self::A,
            Self::H(x0) => Self::H(x0.dup()),
            Self::B { x: x0, y: x1 } => Self::B { x: x0.dup(), y: x1.dup() },
            Self::C(x0, x1) => Self::C(x0.dup(), x1.dup()),
        }
    }
    fn dfmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        std::fmt::Debug::fmt(self, f)
    }
}

#[allow(dead_code)]
#[derive(Reflect, Clone, Debug)]
pub enum PlE2d {
    A,
    /// H docs
    /// more
    #[reflect(skip)]
    H(
        u8,
    ),
    B {
        x: u8,
        y: String,
    },
    C(
        u8,
        String,
    ),
}
#[allow(unused_variables, unused_mut, clippy::all)]
impl Modeled for PlE2d {
    fn t() -> T {
        T::Enum { name: std::any::type_name::<Self>(), variants: vec![VariantT { name: "A", kind: VK::Unit, fields: vec![], meta: vec![], docs: vec![] }, VariantT { name: "B", kind: VK::Struct, fields: vec![FieldT { name: Some("x"), ty: <u8 as Modeled>::t, with: None, meta: vec![], docs: vec![] }, FieldT { name: Some("y"), ty: <String as Modeled>::t, with: None, meta: vec![], docs: vec![] }], meta: vec![], docs: vec![] }, VariantT { name: "C", kind: VK::Tuple, fields: vec![FieldT { name: None, ty: <u8 as Modeled>::t, with: None, meta: vec![], docs: vec![] }, FieldT { name: None, ty: <String as Modeled>::t, with: None, meta: vec![], docs: vec![] }], meta: vec![], docs: vec![] }], skipped: vec!["H"], meta: vec![], docs: vec![] }
    }
    fn m(&self) -> M {
        match self {
            Self::A => M::Enum("A".into(), VK::Unit, vec![]),
            Self::H(x0) => M::Enum("H".into(), VK::Tuple, vec![]),
            Self::B { x: x0, y: x1 } => M::Enum("B".into(), VK::Struct, vec![(Some("x".into()), x0.m()), (Some("y".into()), x1.m())]),
            Self::C(x0, x1) => M::Enum("C".into(), VK::Tuple, vec![(None, x0.m()), (None, x1.m())]),
        }
    }
    fn hidden(&self) -> Vec<u8> {
        match self {
            _ => vec![],
        }
    }
    fn vals(n: usize, d: usize) -> Vec<Self> {
        let mut per: Vec<Vec<Self>> = vec![];
        per.push(vec![Self::A]);
        per.push({ let l0 = <u8 as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); let l1 = <String as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); combos(&[l0.len(), l1.len()], n.max(1)).into_iter().map(|c: Vec<usize>| Self::B { x: l0[c[0]].dup(), y: l1[c[1]].dup() }).collect::<Vec<Self>>() });
        per.push({ let l0 = <u8 as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); let l1 = <String as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); combos(&[l0.len(), l1.len()], n.max(1)).into_iter().map(|c: Vec<usize>| Self::C(l0[c[0]].dup(), l1[c[1]].dup())).collect::<Vec<Self>>() });
        interleave(per, n)
    }
    fn into_v(self) -> Option<Value> { Some(self.into()) }
    fn dup(&self) -> Self {
        match self {
            Self::A => Self::A,
            Self::H(x0) => Self::H(x0.dup()),
            Self::B { x: x0, y: x1 } => Self::B { x: x0.dup(), y: x1.dup() },
            Self::C(x0, x1) => Self::C(x0.dup(), x1.dup()),
        }
    }
    fn dfmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        std::fmt::Debug::fmt(self, f)
    }
}

#[allow(dead_code)]
/// type
#[derive(Reflect, Clone, Debug)]
#[reflect(meta(i = 2, v = vec![1_u8, 2]))]
pub enum PlE2x {
    /// A
    #[reflect(meta(i = 2, v = vec![1_u8, 2]))]
    A,
    #[reflect(skip)]
    H(
        u8,
    ),
    /// B
    #[reflect(meta(i = 2, v = vec![1_u8, 2]))]
    B {
        /// bx
        #[reflect(meta(i = 2, v = vec![1_u8, 2]))] x: u8,
        /// by
        #[reflect(meta(i = 2, v = vec![1_u8, 2]))] y: String,
    },
    /// C
    #[reflect(meta(i = 2, v = vec![1_u8, 2]))]
    C(
        /// c0
        #[reflect(meta(i = 2, v = vec![1_u8, 2]))] u8,
        /// c1
        #[reflect(meta(i = 2, v = vec![1_u8, 2]))] String,
    ),
}
#[allow(unused_variables, unused_mut, clippy::all)]
impl Modeled for PlE2x {
    fn t() -> T {
        T::Enum { name: std::any::type_name::<Self>(), variants: vec![VariantT { name: "A", kind: VK::Unit, fields: vec![], meta: vec![("i", || Value::from(2_i32)), ("v", || Value::List(vec![Value::u8(1), Value::u8(2)]))], docs: vec![" A"] }, VariantT { name: "B", kind: VK::Struct, fields: vec![FieldT { name: Some("x"), ty: <u8 as Modeled>::t, with: None, meta: vec![("i", || Value::from(2_i32)), ("v", || Value::List(vec![Value::u8(1), Value::u8(2)]))], docs: vec![" bx"] }, FieldT { name: Some("y"), ty: <String as Modeled>::t, with: None, meta: vec![("i", || Value::from(2_i32)), ("v", || Value::List(vec![Value::u8(1), Value::u8(2)]))], docs: vec![" by"] }], meta: vec![("i", || Value::from(2_i32)), ("v", || Value::List(vec![Value::u8(1), Value::u8(2)]))], docs: vec![" B"] }, VariantT { name: "C", kind: VK::Tuple, fields: vec![FieldT { name: None, ty: <u8 as Modeled>::t, with: None, meta: vec![("i", || Value::from(2_i32)), ("v", || Value::List(vec![Value::u8(1), Value::u8(2)]))], docs: vec![" c0"] }, FieldT { name: None, ty: <String as Modeled>::t, with: None, meta: vec![("i", || Value::from(2_i32)), ("v", || Value::List(vec![Value::u8(1), Value::u8(2)]))], docs: vec![" c1"] }], meta: vec![("i", || Value::from(2_i32)), ("v", || Value::List(vec![Value::u8(1), Value::u8(2)]))], docs: vec![" C"] }], skipped: vec!["H"], meta: vec![("i", || Value::from(2_i32)), ("v", || Value::List(vec![Value::u8(1), Value::u8(2)]))], docs: vec![" type"] }
    }
    fn m(&self) -> M {
        match self {
            Self::A => M::Enum("A".into(), VK::Unit, vec![]),
            Self::H(x0) => M::Enum("H".into(), VK::Tuple, vec![]),
            Self::B { x: x0, y: x1 } => M::Enum("B".into(), VK::Struct, vec![(Some("x".into()), x0.m()), (Some("y".into()), x1.m())]),
            Self::C(x0, x1) => M::Enum("C".into(), VK::Tuple, vec![(None, x0.m()), (None, x1.m())]),
        }
    }
    fn hidden(&self) -> Vec<u8> {
        match self {
            _ => vec![],
        }
    }
    fn vals(n: usize, d: usize) -> Vec<Self> {
        let mut per: Vec<Vec<Self>> = vec![];
        per.push(vec![Self::A]);
        per.push({ let l0 = <u8 as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); let l1 = <String as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); combos(&[l0.len(), l1.len()], n.max(1)).into_iter().map(|c: Vec<usize>| Self::B { x: l0[c[0]].dup(), y: l1[c[1]].dup() }).collect::<Vec<Self>>() });
        per.push({ let l0 = <u8 as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); let l1 = <String as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); combos(&[l0.len(), l1.len()], n.max(1)).into_iter().map(|c: Vec<usize>| Self::C(l0[c[0]].dup(), l1[c[1]].dup())).collect::<Vec<Self>>() });
        interleave(per, n)
    }
    fn into_v(self) -> Option<Value> { Some(self.into()) }
    fn dup(&self) -> Self {
        match self {
            Self::A => Self::A,
            Self::H(x0) => Self::H(x0.dup()),
            Self::B { x: x0, y: x1 } => Self::B { x: x0.dup(), y: x1.dup() },
            Self::C(x0, x1) => Self::C(x0.dup(), x1.dup()),
        }
    }
    fn dfmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        std::fmt::Debug::fmt(self, f)
    }
}

#[allow(dead_code)]
#[derive(Reflect, Clone, Debug)]
pub enum PlE3m {
    A,
    #[reflect(skip)]
    H(
        u8,
    ),
    #[reflect(meta(i = 1, s = "text"))]
    B {
        x: u8,
        y: String,
    },
    C(
        u8,
        String,
    ),
}
#[allow(unused_variables, unused_mut, clippy::all)]
impl Modeled for PlE3m {
    fn t() -> T {
        T::Enum { name: std::any::type_name::<Self>(), variants: vec![VariantT { name: "A", kind: VK::Unit, fields: vec![], meta: vec![], docs: vec![] }, VariantT { name: "B", kind: VK::Struct, fields: vec![FieldT { name: Some("x"), ty: <u8 as Modeled>::t, with: None, meta: vec![], docs: vec![] }, FieldT { name: Some("y"), ty: <String as Modeled>::t, with: None, meta: vec![], docs: vec![] }], meta: vec![("i", || Value::from(1_i32)), ("s", || Value::from("text"))], docs: vec![] }, VariantT { name: "C", kind: VK::Tuple, fields: vec![FieldT { name: None, ty: <u8 as Modeled>::t, with: None, meta: vec![], docs: vec![] }, FieldT { name: None, ty: <String as Modeled>::t, with: None, meta: vec![], docs: vec![] }], meta: vec![], docs: vec![] }], skipped: vec!["H"], meta: vec![], docs: vec![] }
    }
    fn m(&self) -> M {
        match self {
            Self::A => M::Enum("A".into(), VK::Unit, vec![]),
            Self::H(x0) => M::Enum("H".into(), VK::Tuple, vec![]),
            Self::B { x: x0, y: x1 } => M::Enum("B".into(), VK::Struct, vec![(Some("x".into()), x0.m()), (Some("y".into()), x1.m())]),
            Self::C(x0, x1) => M::Enum("C".into(), VK::Tuple, vec![(None, x0.m()), (None, x1.m())]),
        }
    }
    fn hidden(&self) -> Vec<u8> {
        match self {
            _ => vec![],
        }
    }
    fn vals(n: usize, d: usize) -> Vec<Self> {
        let mut per: Vec<Vec<Self>> = vec![];
        per.push(vec![Self::A]);
        per.push({ let l0 = <u8 as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); let l1 = <String as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); combos(&[l0.len(), l1.len()], n.max(1)).into_iter().map(|c: Vec<usize>| Self::B { x: l0[c[0]].dup(), y: l1[c[1]].dup() }).collect::<Vec<Self>>() });
        per.push({ let l0 = <u8 as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); let l1 = <String as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); combos(&[l0.len(), l1.len()], n.max(1)).into_iter().map(|c: Vec<usize>| Self::C(l0[c[0]].dup(), l1[c[1]].dup())).collect::<Vec<Self>>() });
        interleave(per, n)
    }
    fn into_v(self) -> Option<Value> { Some(self.into()) }
    fn dup(&self) -> Self {
        match self {
            Self::A => Self::A,
            Self::H(x0) => Self::H(x0.dup()),
            Self::B { x: x0, y: x1 } => Self::B { x: x0.dup(), y: x1.dup() },
            Self::C(x0, x1) => Self::C(x0.dup(), x1.dup()),
        }
    }
    fn dfmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        std::fmt::Debug::fmt(self, f)
    }
}

#[allow(dead_code)]
#[derive(Reflect, Clone, Debug)]
pub enum PlE3d {
    A,
    #[reflect(skip)]
    H(
        u8,
    ),
    /// B docs
    /// more
    B {
        x: u8,
        y: String,
    },
    C(
        u8,
        String,
    ),
}
#[allow(unused_variables, unused_mut, clippy::all)]
impl Modeled for PlE3d {
    fn t() -> T {
        T::Enum { name: std::any::type_name::<Self>(), variants: vec![VariantT { name: "A", kind: VK::Unit, fields: vec![], meta: vec![], docs: vec![] }, VariantT { name: "B", kind: VK::Struct, fields: vec![FieldT { name: Some("x"), ty: <u8 as Modeled>::t, with: None, meta: vec![], docs: vec![] }, FieldT { name: Some("y"), ty: <String as Modeled>::t, with: None, meta: vec![], docs: vec![] }], meta: vec![], docs: vec![" B docs", " more"] }, VariantT { name: "C", kind: VK::Tuple, fields: vec![FieldT { name: None, ty: <u8 as Modeled>::t, with: None, meta: vec![], docs: vec![] }, FieldT { name: None, ty: <String as Modeled>::t, with: None, meta: vec![], docs: vec![] }], meta: vec![], docs: vec![] }], skipped: vec!["H"], meta: vec![], docs: vec![] }
    }
    fn m(&self) -> M {
        match self {
            Self::A => M::Enum("A".into(), VK::Unit, vec![]),
            Self::H(x0) => M::Enum("H".into(), VK::Tuple, vec![]),
            Self::B { x: x0, y: x1 } => M::Enum("B".into(), VK::Struct, vec![(Some("x".into()), x0.m()), (Some("y".into()), x1.m())]),
            Self::C(x0, x1) => M::Enum("C".into(), VK::Tuple, vec![(None, x0.m()), (None, x1.m())]),
        }
    }
    fn hidden(&self) -> Vec<u8> {
        match self {
            _ => vec![],
        }
    }
    fn vals(n: usize, d: usize) -> Vec<Self> {
        let mut per: Vec<Vec<Self>> = vec![];
        per.push(vec![Self::A]);
        per.push({ let l0 = <u8 as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); let l1 = <String as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); combos(&[l0.len(), l1.len()], n.max(1)).into_iter().map(|c: Vec<usize>| Self::B { x: l0[c[0]].dup(), y: l1[c[1]].dup() }).collect::<Vec<Self>>() });
        per.push({ let l0 = <u8 as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); let l1 = <String as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); combos(&[l0.len(), l1.len()], n.max(1)).into_iter().map(|c: Vec<usize>| Self::C(l0[c[0]].dup(), l1[c[1]].dup())).collect::<Vec<Self>>() });
        interleave(per, n)
    }
    fn into_v(self) -> Option<Value> { Some(self.into()) }
    fn dup(&self) -> Self {
        match self {
            Self::A => Self::A,
            Self::H(x0) => Self::H(x0.dup()),
            Self::B { x: x0, y: x1 } => Self::B { x: x0.dup(), y: x1.dup() },
            Self::C(x0, x1) => Self::C(x0.dup(), x1.dup()),
        }
    }
    fn dfmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        std::fmt::Debug::fmt(self, f)
    }
}

#[allow(dead_code)]
/// type
#[derive(Reflect, Clone, Debug)]
#[reflect(meta(i = 2, v = vec![1_u8, 2]))]
pub enum PlE3x {
    /// A
    #[reflect(meta(i = 2, v = vec![1_u8, 2]))]
    A,
    /// H
    #[reflect(skip, meta(i = 2, v = vec![1_u8, 2]))]
    H(
        u8,
    ),
    B {
        /// bx
        #[reflect(meta(i = 2, v = vec![1_u8, 2]))] x: u8,
        /// by
        #[reflect(meta(i = 2, v = vec![1_u8, 2]))] y: String,
    },
    /// C
    #[reflect(meta(i = 2, v = vec![1_u8, 2]))]
    C(
        /// c0
        #[reflect(meta(i = 2, v = vec![1_u8, 2]))] u8,
        /// c1
        #[reflect(meta(i = 2, v = vec![1_u8, 2]))] String,
    ),
}
#[allow(unused_variables, unused_mut, clippy::all)]
impl Modeled for PlE3x {
    fn t() -> T {
        T::Enum { name: std::any::type_name::<Self>(), variants: vec![VariantT { name: "A", kind: VK::Unit, fields: vec![], meta: vec![("i", || Value::from(2_i32)), ("v", || Value::List(vec![Value::u8(1), Value::u8(2)]))], docs: vec![" A"] }, VariantT { name: "B", kind: VK::Struct, fields: vec![FieldT { name: Some("x"), ty: <u8 as Modeled>::t, with: None, meta: vec![("i", || Value::from(2_i32)), ("v", || Value::List(vec![Value::u8(1), Value::u8(2)]))], docs: vec![" bx"] }, FieldT { name: Some("y"), ty: <String as Modeled>::t, with: None, meta: vec![("i", || Value::from(2_i32)), ("v", || Value::List(vec![Value::u8(1), Value::u8(2)]))], docs: vec![" by"] }], meta: vec![], docs: vec![] }, VariantT { name: "C", kind: VK::Tuple, fields: vec![FieldT { name: None, ty: <u8 as Modeled>::t, with: None, meta: vec![("i", || Value::from(2_i32)), ("v", || Value::List(vec![Value::u8(1), Value::u8(2)]))], docs: vec![" c0"] }, FieldT { name: None, ty: <String as Modeled>::t, with: None, meta: vec![("i", || Value::from(2_i32)), ("v", || Value::List(vec![Value::u8(1), Value::u8(2)]))], docs: vec![" c1"] }], meta: vec![("i", || Value::from(2_i32)), ("v", || Value::List(vec![Value::u8(1), Value::u8(2)]))], docs: vec![" C"] }], skipped: vec!["H"], meta: vec![("i", || Value::from(2_i32)), ("v", || Value::List(vec![Value::u8(1), Value::u8(2)]))], docs: vec![" type"] }
    }
    fn m(&self) -> M {
        match self {
            Self::A => M::Enum("A".into(), VK::Unit, vec![]),
            Self::H(x0) => M::Enum("H".into(), VK::Tuple, vec![]),
            Self::B { x: x0, y: x1 } => M::Enum("B".into(), VK::Struct, vec![(Some("x".into()), x0.m()), (Some("y".into()), x1.m())]),
            Self::C(x0, x1) => M::Enum("C".into(), VK::Tuple, vec![(None, x0.m()), (None, x1.m())]),
        }
    }
    fn hidden(&self) -> Vec<u8> {
        match self {
            _ => vec![],
        }
    }
    fn vals(n: usize, d: usize) -> Vec<Self> {
        let mut per: Vec<Vec<Self>> = vec![];
        per.push(vec![Self::A]);
        per.push({ let l0 = <u8 as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); let l1 = <String as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); combos(&[l0.len(), l1.len()], n.max(1)).into_iter().map(|c: Vec<usize>| Self::B { x: l0[c[0]].dup(), y: l1[c[1]].dup() }).collect::<Vec<Self>>() });
        per.push({ let l0 = <u8 as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); let l1 = <String as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); combos(&[l0.len(), l1.len()], n.max(1)).into_iter().map(|c: Vec<usize>| Self::C(l0[c[0]].dup(), l1[c[1]].dup())).collect::<Vec<Self>>() });
        interleave(per, n)
    }
    fn into_v(self) -> Option<Value> { Some(self.into()) }
    fn dup(&self) -> Self {
        match self {
            Self::A => Self::A,
            Self::H(x0) => Self::H(x0.dup()),
            Self::B { x: x0, y: x1 } => Self::B { x: x0.dup(), y: x1.dup() },
            Self::C(x0, x1) => Self::C(x0.dup(), x1.dup()),
        }
    }
    fn dfmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        std::fmt::Debug::fmt(self, f)
    }
}

#[allow(dead_code)]
#[derive(Reflect, Clone, Debug)]
pub enum PlE4m {
    A,
    #[reflect(skip)]
    H(
        u8,
    ),
    B {
        #[reflect(meta(i = 1, s = "text"))] x: u8,
        y: String,
    },
    C(
        u8,
        String,
    ),
}
#[allow(unused_variables, unused_mut, clippy::all)]
impl Modeled for PlE4m {
    fn t() -> T {
        T::Enum { name: std::any::type_name::<Self>(), variants: vec![VariantT { name: "A", kind: VK::Unit, fields: vec![], meta: vec![], docs: vec![] }, VariantT { name: "B", kind: VK::Struct, fields: vec![FieldT { name: Some("x"), ty: <u8 as Modeled>::t, with: None, meta: vec![("i", || Value::from(1_i32)), ("s", || Value::from("text"))], docs: vec![] }, FieldT { name: Some("y"), ty: <String as Modeled>::t, with: None, meta: vec![], docs: vec![] }], meta: vec![], docs: vec![] }, VariantT { name: "C", kind: VK::Tuple, fields: vec![FieldT { name: None, ty: <u8 as Modeled>::t, with: None, meta: vec![], docs: vec![] }, FieldT { name: None, ty: <String as Modeled>::t, with: None, meta: vec![], docs: vec![] }], meta: vec![], docs: vec![] }], skipped: vec!["H"], meta: vec![], docs: vec![] }
    }
    fn m(&self) -> M {
        match self {
            Self::A => M::Enum("A".into(), VK::Unit, vec![]),
            Self::H(x0) => M::Enum("H".into(), VK::Tuple, vec![]),
            Self::B { x: x0, y: x1 } => M::Enum("B".into(), VK::Struct, vec![(Some("x".into()), x0.m()), (Some("y".into()), x1.m())]),
            Self::C(x0, x1) => M::Enum("C".into(), VK::Tuple, vec![(None, x0.m()), (None, x1.m())]),
        }
    }
    fn hidden(&self) -> Vec<u8> {
        match self {
            _ => vec![],
        }
    }
    fn vals(n: usize, d: usize) -> Vec<Self> {
        let mut per: Vec<Vec<Self>> = vec![];
        per.push(vec![Self::A]);
        per.push({ let l0 = <u8 as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); let l1 = <String as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); combos(&[l0.len(), l1.len()], n.max(1)).into_iter().map(|c: Vec<usize>| Self::B { x: l0[c[0]].dup(), y: l1[c[1]].dup() }).collect::<Vec<Self>>() });
        per.push({ let l0 = <u8 as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); let l1 = <String as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); combos(&[l0.len(), l1.len()], n.max(1)).into_iter().map(|c: Vec<usize>| Self::C(l0[c[0]].dup(), l1[c[1]].dup())).collect::<Vec<Self>>() });
        interleave(per, n)
    }
    fn into_v(self) -> Option<Value> { Some(self.into()) }
    fn dup(&self) -> Self {
        match self {
            Self::A => Self::A,
            Self::H(x0) => Self::H(x0.dup()),
            Self::B { x: x0, y: x1 } => Self::B { x: x0.dup(), y: x1.dup() },
            Self::C(x0, x1) => Self::C(x0.dup(), x1.dup()),
        }
    }
    fn dfmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        std::fmt::Debug::fmt(self, f)
    }
}

#[allow(dead_code)]
#[derive(Reflect, Clone, Debug)]
pub enum PlE4d {
    A,
    #[reflect(skip)]
    H(
        u8,
    ),
    B {
        /// bx docs
        /// more
        x: u8,
        y: String,
    },
    C(
        u8,
        String,
    ),
}
#[allow(unused_variables, unused_mut, clippy::all)]
impl Modeled for PlE4d {
    fn t() -> T {
        T::Enum { name: std::any::type_name::<Self>(), variants: vec![VariantT { name: "A", kind: VK::Unit, fields: vec![], meta: vec![], docs: vec![] }, VariantT { name: "B", kind: VK::Struct, fields: vec![FieldT { name: Some("x"), ty: <u8 as Modeled>::t, with: None, meta: vec![], docs: vec![" bx docs", " more"] }, FieldT { name: Some("y"), ty: <String as Modeled>::t, with: None, meta: vec![], docs: vec![] }], meta: vec![], docs: vec![] }, VariantT { name: "C", kind: VK::Tuple, fields: vec![FieldT { name: None, ty: <u8 as Modeled>::t, with: None, meta: vec![], docs: vec![] }, FieldT { name: None, ty: <String as Modeled>::t, with: None, meta: vec![], docs: vec![] }], meta: vec![], docs: vec![] }], skipped: vec!["H"], meta: vec![], docs: vec![] }
    }
    fn m(&self) -> M {
        match self {
            Self::A => M::Enum("A".into(), VK::Unit, vec![]),
            Self::H(x0) => M::Enum("H".into(), VK::Tuple, vec![]),
            Self::B { x: x0, y: x1 } => M::Enum("B".into(), VK::Struct, vec![(Some("x".into()), x0.m()), (Some("y".into()), x1.m())]),
            Self::C(x0, x1) => M::Enum("C".into(), VK::Tuple, vec![(None, x0.m()), (None, x1.m())]),
        }
    }
    fn hidden(&self) -> Vec<u8> {
        match self {
            _ => vec![],
        }
    }
    fn vals(n: usize, d: usize) -> Vec<Self> {
        let mut per: Vec<Vec<Self>> = vec![];
        per.push(vec![Self::A]);
        per.push({ let l0 = <u8 as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); let l1 = <String as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); combos(&[l0.len(), l1.len()], n.max(1)).into_iter().map(|c: Vec<usize>| Self::B { x: l0[c[0]].dup(), y: l1[c[1]].dup() }).collect::<Vec<Self>>() });
        per.push({ let l0 = <u8 as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); let l1 = <String as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); combos(&[l0.len(), l1.len()], n.max(1)).into_iter().map(|c: Vec<usize>| Self::C(l0[c[0]].dup(), l1[c[1]].dup())).collect::<Vec<Self>>() });
        interleave(per, n)
    }
    fn into_v(self) -> Option<Value> { Some(self.into()) }
    fn dup(&self) -> Self {
        match self {
            Self::A => Self::A,
            Self::H(x0) => Self::H(x0.dup()),
            Self::B { x: x0, y: x1 } => Self::B { x: x0.dup(), y: x1.dup() },
            Self::C(x0, x1) => Self::C(x0.dup(), x1.dup()),
        }
    }
    fn dfmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        std::fmt::Debug::fmt(self, f)
    }
}

#[allow(dead_code)]
/// type
#[derive(Reflect, Clone, Debug)]
#[reflect(meta(i = 2, v = vec![1_u8, 2]))]
pub enum PlE4x {
    /// A
    #[reflect(meta(i = 2, v = vec![1_u8, 2]))]
    A,
    /// H
    #[reflect(skip, meta(i = 2, v = vec![1_u8, 2]))]
    H(
        u8,
    ),
    /// B
    #[reflect(meta(i = 2, v = vec![1_u8, 2]))]
    B {
        x: u8,
        /// by
        #[reflect(meta(i = 2, v = vec![1_u8, 2]))] y: String,
    },
    /// C
    #[reflect(meta(i = 2, v = vec![1_u8, 2]))]
    C(
        /// c0
        #[reflect(meta(i = 2, v = vec![1_u8, 2]))] u8,
        /// c1
        #[reflect(meta(i = 2, v = vec![1_u8, 2]))] String,
    ),
}
#[allow(unused_variables, unused_mut, clippy::all)]
impl Modeled for PlE4x {
    fn t() -> T {
        T::Enum { name: std::any::type_name::<Self>(), variants: vec![VariantT { name: "A", kind: VK::Unit, fields: vec![], meta: vec![("i", || Value::from(2_i32)), ("v", || Value::List(vec![Value::u8(1), Value::u8(2)]))], docs: vec![" A"] }, VariantT { name: "B", kind: VK::Struct, fields: vec![FieldT { name: Some("x"), ty: <u8 as Modeled>::t, with: None, meta: vec![], docs: vec![] }, FieldT { name: Some("y"), ty: <String as Modeled>::t, with: None, meta: vec![("i", || Value::from(2_i32)), ("v", || Value::List(vec![Value::u8(1), Value::u8(2)]))], docs: vec![" by"] }], meta: vec![("i", || Value::from(2_i32)), ("v", || Value::List(vec![Value::u8(1), Value::u8(2)]))], docs: vec![" B"] }, VariantT { name: "C", kind: VK::Tuple, fields: vec![FieldT { name: None, ty: <u8 as Modeled>::t, with: None, meta: vec![("i", || Value::from(2_i32)), ("v", || Value::List(vec![Value::u8(1), Value::u8(2)]))], docs: vec![" c0"] }, FieldT { name: None, ty: <String as Modeled>::t, with: None, meta: vec![("i", || Value::from(2_i32)), ("v", || Value::List(vec![Value::u8(1), Value::u8(2)]))], docs: vec![" c1"] }], meta: vec![("i", || Value::from(2_i32)), ("v", || Value::List(vec![Value::u8(1), Value::u8(2)]))], docs: vec![" C"] }], skipped: vec!["H"], meta: vec![("i", || Value::from(2_i32)), ("v", || Value::List(vec![Value::u8(1), Value::u8(2)]))], docs: vec![" type"] }
    }
    fn m(&self) -> M {
        match self {
            Self::A => M::Enum("A".into(), VK::Unit, vec![]),
            Self::H(x0) => M::Enum("H".into(), VK::Tuple, vec![]),
            Self::B { x: x0, y: x1 } => M::Enum("B".into(), VK::Struct, vec![(Some("x".into()), x0.m()), (Some("y".into()), x1.m())]),
            Self::C(x0, x1) => M::Enum("C".into(), VK::Tuple, vec![(None, x0.m()), (None, x1.m())]),
        }
    }
    fn hidden(&self) -> Vec<u8> {
        match self {
            _ => vec![],
        }
    }
    fn vals(n: usize, d: usize) -> Vec<Self> {
        let mut per: Vec<Vec<Self>> = vec![];
        per.push(vec![Self::A]);
        per.push({ let l0 = <u8 as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); let l1 = <String as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); combos(&[l0.len(), l1.len()], n.max(1)).into_iter().map(|c: Vec<usize>| Self::B { x: l0[c[0]].dup(), y: l1[c[1]].dup() }).collect::<Vec<Self>>() });
        per.push({ let l0 = <u8 as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); let l1 = <String as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); combos(&[l0.len(), l1.len()], n.max(1)).into_iter().map(|c: Vec<usize>| Self::C(l0[c[0]].dup(), l1[c[1]].dup())).collect::<Vec<Self>>() });
        interleave(per, n)
    }
    fn into_v(self) -> Option<Value> { Some(self.into()) }
    fn dup(&self) -> Self {
        match self {
            Self::A => Self::A,
            Self::H(x0) => Self::H(x0.dup()),
            Self::B { x: x0, y: x1 } => Self::B { x: x0.dup(), y: x1.dup() },
            Self::C(x0, x1) => Self::C(x0.dup(), x1.dup()),
        }
    }
    fn dfmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        std::fmt::Debug::fmt(self, f)
    }
}

#[allow(dead_code)]
#[derive(Reflect, Clone, Debug)]
pub enum PlE5m {
    A,
    #[reflect(skip)]
    H(
        u8,
    ),
    B {
        x: u8,
        #[reflect(meta(i = 1, s = "text"))] y: String,
    },
    C(
        u8,
        String,
    ),
}
#[allow(unused_variables, unused_mut, clippy::all)]
impl Modeled for PlE5m {
    fn t() -> T {
        T::Enum { name: std::any::type_name::<Self>(), variants: vec![VariantT { name: "A", kind: VK::Unit, fields: vec![], meta: vec![], docs: vec![] }, VariantT { name: "B", kind: VK::Struct, fields: vec![FieldT { name: Some("x"), ty: <u8 as Modeled>::t, with: None, meta: vec![], docs: vec![] }, FieldT { name: Some("y"), ty: <String as Modeled>::t, with: None, meta: vec![("i", || Value::from(1_i32)), ("s", || Value::from("text"))], docs: vec![] }], meta: vec![], docs: vec![] }, VariantT { name: "C", kind: VK::Tuple, fields: vec![FieldT { name: None, ty: <u8 as Modeled>::t, with: None, meta: vec![], docs: vec![] }, FieldT { name: None, ty: <String as Modeled>::t, with: None, meta: vec![], docs: vec![] }], meta: vec![], docs: vec![] }], skipped: vec!["H"], meta: vec![], docs: vec![] }
    }
    fn m(&self) -> M {
        match self {
            Self::A => M::Enum("A".into(), VK::Unit, vec![]),
            Self::H(x0) => M::Enum("H".into(), VK::Tuple, vec![]),
            Self::B { x: x0, y: x1 } => M::Enum("B".into(), VK::Struct, vec![(Some("x".into()), x0.m()), (Some("y".into()), x1.m())]),
            Self::C(x0, x1) => M::Enum("C".into(), VK::Tuple, vec![(None, x0.m()), (None, x1.m())]),
        }
    }
    fn hidden(&self) -> Vec<u8> {
        match self {
            _ => vec![],
        }
    }
    fn vals(n: usize, d: usize) -> Vec<Self> {
        let mut per: Vec<Vec<Self>> = vec![];
        per.push(vec![Self::A]);
        per.push({ let l0 = <u8 as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); let l1 = <String as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); combos(&[l0.len(), l1.len()], n.max(1)).into_iter().map(|c: Vec<usize>| Self::B { x: l0[c[0]].dup(), y: l1[c[1]].dup() }).collect::<Vec<Self>>() });
        per.push({ let l0 = <u8 as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); let l1 = <String as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); combos(&[l0.len(), l1.len()], n.max(1)).into_iter().map(|c: Vec<usize>| Self::C(l0[c[0]].dup(), l1[c[1]].dup())).collect::<Vec<Self>>() });
        interleave(per, n)
    }
    fn into_v(self) -> Option<Value> { Some(self.into()) }
    fn dup(&self) -> Self {
        match self {
            Self::A => Self::A,
            Self::H(x0) => Self::H(x0.dup()),
            Self::B { x: x0, y: x1 } => Self::B { x: x0.dup(), y: x1.dup() },
            Self::C(x0, x1) => Self::C(x0.dup(), x1.dup()),
        }
    }
    fn dfmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        std::fmt::Debug::fmt(self, f)
    }
}

#[allow(dead_code)]
#[derive(Reflect, Clone, Debug)]
pub enum PlE5d {
    A,
    #[reflect(skip)]
    H(
        u8,
    ),
    B {
        x: u8,
        /// by docs
        /// more
        y: String,
    },
    C(
        u8,
        String,
    ),
}
#[allow(unused_variables, unused_mut, clippy::all)]
impl Modeled for PlE5d {
    fn t() -> T {
        T::Enum { name: std::any::type_name::<Self>(), variants: vec![VariantT { name: "A", kind: VK::Unit, fields: vec![], meta: vec![], docs: vec![] }, VariantT { name: "B", kind: VK::Struct, fields: vec![FieldT { name: Some("x"), ty: <u8 as Modeled>::t, with: None, meta: vec![], docs: vec![] }, FieldT { name: Some("y"), ty: <String as Modeled>::t, with: None, meta: vec![], docs: vec![" by docs", " more"] }], meta: vec![], docs: vec![] }, VariantT { name: "C", kind: VK::Tuple, fields: vec![FieldT { name: None, ty: <u8 as Modeled>::t, with: None, meta: vec![], docs: vec![] }, FieldT { name: None, ty: <String as Modeled>::t, with: None, meta: vec![], docs: vec![] }], meta: vec![], docs: vec![] }], skipped: vec!["H"], meta: vec![], docs: vec![] }
    }
    fn m(&self) -> M {
        match self {
            Self::A => M::Enum("A".into(), VK::Unit, vec![]),
            Self::H(x0) => M::Enum("H".into(), VK::Tuple, vec![]),
            Self::B { x: x0, y: x1 } => M::Enum("B".into(), VK::Struct, vec![(Some("x".into()), x0.m()), (Some("y".into()), x1.m())]),
            Self::C(x0, x1) => M::Enum("C".into(), VK::Tuple, vec![(None, x0.m()), (None, x1.m())]),
        }
    }
    fn hidden(&self) -> Vec<u8> {
        match self {
            _ => vec![],
        }
    }
    fn vals(n: usize, d: usize) -> Vec<Self> {
        let mut per: Vec<Vec<Self>> = vec![];
        per.push(vec![Self::A]);
        per.push({ let l0 = <u8 as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); let l1 = <String as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); combos(&[l0.len(), l1.len()], n.max(1)).into_iter().map(|c: Vec<usize>| Self::B { x: l0[c[0]].dup(), y: l1[c[1]].dup() }).collect::<Vec<Self>>() });
        per.push({ let l0 = <u8 as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); let l1 = <String as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); combos(&[l0.len(), l1.len()], n.max(1)).into_iter().map(|c: Vec<usize>| Self::C(l0[c[0]].dup(), l1[c[1]].dup())).collect::<Vec<Self>>() });
        interleave(per, n)
    }
    fn into_v(self) -> Option<Value> { Some(self.into()) }
    fn dup(&self) -> Self {
        match self {
            Self::A => Self::A,
            Self::H(x0) => Self::H(x0.dup()),
            Self::B { x: x0, y: x1 } => Self::B { x: x0.dup(), y: x1.dup() },
            Self::C(x0, x1) => Self::C(x0.dup(), x1.dup()),
        }
    }
    fn dfmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        std::fmt::Debug::fmt(self, f)
    }
}

#[allow(dead_code)]
/// type
#[derive(Reflect, Clone, Debug)]
#[reflect(meta(i = 2, v = vec![1_u8, 2]))]
pub enum PlE5x {
    /// A
    #[reflect(meta(i = 2, v = vec![1_u8, 2]))]
    A,
    /// H
    #[reflect(skip, meta(i = 2, v = vec![1_u8, 2]))]
    H(
        u8,
    ),
    /// B
    #[reflect(meta(i = 2, v = vec![1_u8, 2]))]
    B {
        /// bx
        #[reflect(meta(i = 2, v = vec![1_u8, 2]))] x: u8,
        y: String,
    },
    /// C
    #[reflect(meta(i = 2, v = vec![1_u8, 2]))]
    C(
        /// c0
        #[reflect(meta(i = 2, v = vec![1_u8, 2]))] u8,
        /// c1
        #[reflect(meta(i = 2, v = vec![1_u8, 2]))] String,
    ),
}
#[allow(unused_variables, unused_mut, clippy::all)]
impl Modeled for PlE5x {
    fn t() -> T {
        T::Enum { name: std::any::type_name::<Self>(), variants: vec![VariantT { name: "A", kind: VK::Unit, fields: vec![], meta: vec![("i", || Value::from(2_i32)), ("v", || Value::List(vec![Value::u8(1), Value::u8(2)]))], docs: vec![" A"] }, VariantT { name: "B", kind: VK::Struct, fields: vec![FieldT { name: Some("x"), ty: <u8 as Modeled>::t, with: None, meta: vec![("i", || Value::from(2_i32)), ("v", || Value::List(vec![Value::u8(1), Value::u8(2)]))], docs: vec![" bx"] }, FieldT { name: Some("y"), ty: <String as Modeled>::t, with: None, meta: vec![], docs: vec![] }], meta: vec![("i", || Value::from(2_i32)), ("v", || Value::List(vec![Value::u8(1), Value::u8(2)]))], docs: vec![" B"] }, VariantT { name: "C", kind: VK::Tuple, fields: vec![FieldT { name: None, ty: <u8 as Modeled>::t, with: None, meta: vec![("i", || Value::from(2_i32)), ("v", || Value::List(vec![Value::u8(1), Value::u8(2)]))], docs: vec![" c0"] }, FieldT { name: None, ty: <String as Modeled>::t, with: None, meta: vec![("i", || Value::from(2_i32)), ("v", || Value::List(vec![Value::u8(1), Value::u8(2)]))], docs: vec![" c1"] }], meta: vec![("i", || Value::from(2_i32)), ("v", || Value::List(vec![Value::u8(1), Value::u8(2)]))], docs: vec![" C"] }], skipped: vec!["H"], meta: vec![("i", || Value::from(2_i32)), ("v", || Value::List(vec![Value::u8(1), Value::u8(2)]))], docs: vec![" type"] }
    }
    fn m(&self) -> M {
        match self {
            Self::A => M::Enum("A".into(), VK::Unit, vec![]),
            Self::H(x0) => M::Enum("H".into(), VK::Tuple, vec![]),
            Self::B { x: x0, y: x1 } => M::Enum("B".into(), VK::Struct, vec![(Some("x".into()), x0.m()), (Some("y".into()), x1.m())]),
            Self::C(x0, x1) => M::Enum("C".into(), VK::Tuple, vec![(None, x0.m()), (None, x1.m())]),
        }
    }
    fn hidden(&self) -> Vec<u8> {
        match self {
            _ => vec![],
        }
    }
    fn vals(n: usize, d: usize) -> Vec<Self> {
        let mut per: Vec<Vec<Self>> = vec![];
        per.push(vec![Self::A]);
        per.push({ let l0 = <u8 as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); let l1 = <String as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); combos(&[l0.len(), l1.len()], n.max(1)).into_iter().map(|c: Vec<usize>| Self::B { x: l0[c[0]].dup(), y: l1[c[1]].dup() }).collect::<Vec<Self>>() });
        per.push({ let l0 = <u8 as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); let l1 = <String as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); combos(&[l0.len(), l1.len()], n.max(1)).into_iter().map(|c: Vec<usize>| Self::C(l0[c[0]].dup(), l1[c[1]].dup())).collect::<Vec<Self>>() });
        interleave(per, n)
    }
    fn into_v(self) -> Option<Value> { Some(self.into()) }
    fn dup(&self) -> Self {
        match self {
            Self::A => Self::A,
            Self::H(x0) => Self::H(x0.dup()),
            Self::B { x: x0, y: x1 } => Self::B { x: x0.dup(), y: x1.dup() },
            Self::C(x0, x1) => Self::C(x0.dup(), x1.dup()),
        }
    }
    fn dfmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        std::fmt::Debug::fmt(self, f)
    }
}

#[allow(dead_code)]
#[derive(Reflect, Clone, Debug)]
pub enum PlE6m {
    A,
    #[reflect(skip)]
    H(
        u8,
    ),
    B {
        x: u8,
        y: String,
    },
    #[reflect(meta(i = 1, s = "text"))]
    C(
        u8,
        String,
    ),
}
#[allow(unused_variables, unused_mut, clippy::all)]
impl Modeled for PlE6m {
    fn t() -> T {
        T::Enum { name: std::any::type_name::<Self>(), variants: vec![VariantT { name: "A", kind: VK::Unit, fields: vec![], meta: vec![], docs: vec![] }, VariantT { name: "B", kind: VK::Struct, fields: vec![FieldT { name: Some("x"), ty: <u8 as Modeled>::t, with: None, meta: vec![], docs: vec![] }, FieldT { name: Some("y"), ty: <String as Modeled>::t, with: None, meta: vec![], docs: vec![] }], meta: vec![], docs: vec![] }, VariantT { name: "C", kind: VK::Tuple, fields: vec![FieldT { name: None, ty: <u8 as Modeled>::t, with: None, meta: vec![], docs: vec![] }, FieldT { name: None, ty: <String as Modeled>::t, with: None, meta: vec![], docs: vec![] }], meta: vec![("i", || Value::from(1_i32)), ("s", || Value::from("text"))], docs: vec![] }], skipped: vec!["H"], meta: vec![], docs: vec![] }
    }
    fn m(&self) -> M {
        match self {
            Self::A => M::Enum("A".into(), VK::Unit, vec![]),
            Self::H(x0) => M::Enum("H".into(), VK::Tuple, vec![]),
            Self::B { x: x0, y: x1 } => M::Enum("B".into(), VK::Struct, vec![(Some("x".into()), x0.m()), (Some("y".into()), x1.m())]),
            Self::C(x0, x1) => M::Enum("C".into(), VK::Tuple, vec![(None, x0.m()), (None, x1.m())]),
        }
    }
    fn hidden(&self) -> Vec<u8> {
        match self {
            _ => vec![],
        }
    }
    fn vals(n: usize, d: usize) -> Vec<Self> {
        let mut per: Vec<Vec<Self>> = vec![];
        per.push(vec![Self::A]);
        per.push({ let l0 = <u8 as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); let l1 = <String as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); combos(&[l0.len(), l1.len()], n.max(1)).into_iter().map(|c: Vec<usize>| Self::B { x: l0[c[0]].dup(), y: l1[c[1]].dup() }).collect::<Vec<Self>>() });
        per.push({ let l0 = <u8 as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); let l1 = <String as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); combos(&[l0.len(), l1.len()], n.max(1)).into_iter().map(|c: Vec<usize>| Self::C(l0[c[0]].dup(), l1[c[1]].dup())).collect::<Vec<Self>>() });
        interleave(per, n)
    }
    fn into_v(self) -> Option<Value> { Some(self.into()) }
    fn dup(&self) -> Self {
        match self {
            Self::A => Self::A,
            Self::H(x0) => Self::H(x0.dup()),
            Self::B { x: x0, y: x1 } => Self::B { x: x0.dup(), y: x1.dup() },
            Self::C(x0, x1) => Self::C(x0.dup(), x1.dup()),
        }
    }
    fn dfmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        std::fmt::Debug::fmt(self, f)
    }
}

#[allow(dead_code)]
#[derive(Reflect, Clone, Debug)]
pub enum PlE6d {
    A,
    #[reflect(skip)]
    H(
        u8,
    ),
    B {
        x: u8,
        y: String,
    },
    /// C docs
    /// more
    C(
        u8,
        String,
    ),
}
#[allow(unused_variables, unused_mut, clippy::all)]
impl Modeled for PlE6d {
    fn t() -> T {
        T::Enum { name: std::any::type_name::<Self>(), variants: vec![VariantT { name: "A", kind: VK::Unit, fields: vec![], meta: vec![], docs: vec![] }, VariantT { name: "B", kind: VK::Struct, fields: vec![FieldT { name: Some("x"), ty: <u8 as Modeled>::t, with: None, meta: vec![], docs: vec![] }, FieldT { name: Some("y"), ty: <String as Modeled>::t, with: None, meta: vec![], docs: vec![] }], meta: vec![], docs: vec![] }, VariantT { name: "C", kind: VK::Tuple, fields: vec![FieldT { name: None, ty: <u8 as Modeled>::t, with: None, meta: vec![], docs: vec![] }, FieldT { name: None, ty: <String as Modeled>::t, with: None, meta: vec![], docs: vec![] }], meta: vec![], docs: vec![" C docs", " more"] }], skipped: vec!["H"], meta: vec![], docs: vec![] }
    }
    fn m(&self) -> M {
        match self {
            Self::A => M::Enum("A".into(), VK::Unit, vec![]),
            Self::H(x0) => M::Enum("H".into(), VK::Tuple, vec![]),
            Self::B { x: x0, y: x1 } => M::Enum("B".into(), VK::Struct, vec![(Some("x".into()), x0.m()), (Some("y".into()), x1.m())]),
            Self::C(x0, x1) => M::Enum("C".into(), VK::Tuple, vec![(None, x0.m()), (None, x1.m())]),
        }
    }
    fn hidden(&self) -> Vec<u8> {
        match self {
            _ => vec![],
        }
    }
    fn vals(n: usize, d: usize) -> Vec<Self> {
        let mut per: Vec<Vec<Self>> = vec![];
        per.push(vec![Self::A]);
        per.push({ let l0 = <u8 as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); let l1 = <String as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); combos(&[l0.len(), l1.len()], n.max(1)).into_iter().map(|c: Vec<usize>| Self::B { x: l0[c[0]].dup(), y: l1[c[1]].dup() }).collect::<Vec<Self>>() });
        per.push({ let l0 = <u8 as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); let l1 = <String as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); combos(&[l0.len(), l1.len()], n.max(1)).into_iter().map(|c: Vec<usize>| Self::C(l0[c[0]].dup(), l1[c[1]].dup())).collect::<Vec<Self>>() });
        interleave(per, n)
    }
    fn into_v(self) -> Option<Value> { Some(self.into()) }
    fn dup(&self) -> Self {
        match self {
            Self::A => Self::A,
            Self::H(x0) => Self::H(x0.dup()),
            Self::B { x: x0, y: x1 } => Self::B { x: x0.dup(), y: x1.dup() },
            Self::C(x0, x1) => Self::C(x0.dup(), x1.dup()),
        }
    }
    fn dfmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        std::fmt::Debug::fmt(self, f)
    }
}

#[allow(dead_code)]
/// type
#[derive(Reflect, Clone, Debug)]
#[reflect(meta(i = 2, v = vec![1_u8, 2]))]
pub enum PlE6x {
    /// A
    #[reflect(meta(i = 2, v = vec![1_u8, 2]))]
    A,
    /// H
    #[reflect(skip, meta(i = 2, v = vec![1_u8, 2]))]
    H(
        u8,
    ),
    /// B
    #[reflect(meta(i = 2, v = vec![1_u8, 2]))]
    B {
        /// bx
        #[reflect(meta(i = 2, v = vec![1_u8, 2]))] x: u8,
        /// by
        #[reflect(meta(i = 2, v = vec![1_u8, 2]))] y: String,
    },
    C(
        /// c0
        #[reflect(meta(i = 2, v = vec![1_u8, 2]))] u8,
        /// c1
        #[reflect(meta(i = 2, v = vec![1_u8, 2]))] String,
    ),
}
#[allow(unused_variables, unused_mut, clippy::all)]
impl Modeled for PlE6x {
    fn t() -> T {
        T::Enum { name: std::any::type_name::<Self>(), variants: vec![VariantT { name: "A", kind: VK::Unit, fields: vec![], meta: vec![("i", || Value::from(2_i32)), ("v", || Value::List(vec![Value::u8(1), Value::u8(2)]))], docs: vec![" A"] }, VariantT { name: "B", kind: VK::Struct, fields: vec![FieldT { name: Some("x"), ty: <u8 as Modeled>::t, with: None, meta: vec![("i", || Value::from(2_i32)), ("v", || Value::List(vec![Value::u8(1), Value::u8(2)]))], docs: vec![" bx"] }, FieldT { name: Some("y"), ty: <String as Modeled>::t, with: None, meta: vec![("i", || Value::from(2_i32)), ("v", || Value::List(vec![Value::u8(1), Value::u8(2)]))], docs: vec![" by"] }], meta: vec![("i", || Value::from(2_i32)), ("v", || Value::List(vec![Value::u8(1), Value::u8(2)]))], docs: vec![" B"] }, VariantT { name: "C", kind: VK::Tuple, fields: vec![FieldT { name: None, ty: <u8 as Modeled>::t, with: None, meta: vec![("i", || Value::from(2_i32)), ("v", || Value::List(vec![Value::u8(1), Value::u8(2)]))], docs: vec![" c0"] }, FieldT { name: None, ty: <String as Modeled>::t, with: None, meta: vec![("i", || Value::from(2_i32)), ("v", || Value::List(vec![Value::u8(1), Value::u8(2)]))], docs: vec![" c1"] }], meta: vec![], docs: vec![] }], skipped: vec!["H"], meta: vec![("i", || Value::from(2_i32)), ("v", || Value::List(vec![Value::u8(1), Value::u8(2)]))], docs: vec![" type"] }
    }
    fn m(&self) -> M {
        match self {
            Self::A => M::Enum("A".into(), VK::Unit, vec![]),
            Self::H(x0) => M::Enum("H".into(), VK::Tuple, vec![]),
            Self::B { x: x0, y: x1 } => M::Enum("B".into(), VK::Struct, vec![(Some("x".into()), x0.m()), (Some("y".into()), x1.m())]),
            Self::C(x0, x1) => M::Enum("C".into(), VK::Tuple, vec![(None, x0.m()), (None, x1.m())]),
        }
    }
    fn hidden(&self) -> Vec<u8> {
        match self {
            _ => vec![],
        }
    }
    fn vals(n: usize, d: usize) -> Vec<Self> {
        let mut per: Vec<Vec<Self>> = vec![];
        per.push(vec![Self::A]);
        per.push({ let l0 = <u8 as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); let l1 = <String as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); combos(&[l0.len(), l1.len()], n.max(1)).into_iter().map(|c: Vec<usize>| Self::B { x: l0[c[0]].dup(), y: l1[c[1]].dup() }).collect::<Vec<Self>>() });
        per.push({ let l0 = <u8 as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); let l1 = <String as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); combos(&[l0.len(), l1.len()], n.max(1)).into_iter().map(|c: Vec<usize>| Self::C(l0[c[0]].dup(), l1[c[1]].dup())).collect::<Vec<Self>>() });
        interleave(per, n)
    }
    fn into_v(self) -> Option<Value> { Some(self.into()) }
    fn dup(&self) -> Self {
        match self {
            Self::A => Self::A,
            Self::H(x0) => Self::H(x0.dup()),
            Self::B { x: x0, y: x1 } => Self::B { x: x0.dup(), y: x1.dup() },
            Self::C(x0, x1) => Self::C(x0.dup(), x1.dup()),
        }
    }
    fn dfmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        std::fmt::Debug::fmt(self, f)
    }
}

#[allow(dead_code)]
#[derive(Reflect, Clone, Debug)]
pub enum PlE7m {
    A,
    #[reflect(skip)]
    H(
        u8,
    ),
    B {
        x: u8,
        y: String,
    },
    C(
        #[reflect(meta(i = 1, s = "text"))] u8,
        String,
    ),
}
#[allow(unused_variables, unused_mut, clippy::all)]
impl Modeled for PlE7m {
    fn t() -> T {
        T::Enum { name: std::any::type_name::<Self>(), variants: vec![VariantT { name: "A", kind: VK::Unit, fields: vec![], meta: vec![], docs: vec![] }, VariantT { name: "B", kind: VK::Struct, fields: vec![FieldT { name: Some("x"), ty: <u8 as Modeled>::t, with: None, meta: vec![], docs: vec![] }, FieldT { name: Some("y"), ty: <String as Modeled>::t, with: None, meta: vec![], docs: vec![] }], meta: vec![], docs: vec![] }, VariantT { name: "C", kind: VK::Tuple, fields: vec![FieldT { name: None, ty: <u8 as Modeled>::t, with: None, meta: vec![("i", || Value::from(1_i32)), ("s", || Value::from("text"))], docs: vec![] }, FieldT { name: None, ty: <String as Modeled>::t, with: None, meta: vec![], docs: vec![] }], meta: vec![], docs: vec![] }], skipped: vec!["H"], meta: vec![], docs: vec![] }
    }
    fn m(&self) -> M {
        match self {
            Self::A => M::Enum("A".into(), VK::Unit, vec![]),
            Self::H(x0) => M::Enum("H".into(), VK::Tuple, vec![]),
            Self::B { x: x0, y: x1 } => M::Enum("B".into(), VK::Struct, vec![(Some("x".into()), x0.m()), (Some("y".into()), x1.m())]),
            Self::C(x0, x1) => M::Enum("C".into(), VK::Tuple, vec![(None, x0.m()), (None, x1.m())]),
        }
    }
    fn hidden(&self) -> Vec<u8> {
        match self {
            _ => vec![],
        }
    }
    fn vals(n: usize, d: usize) -> Vec<Self> {
        let mut per: Vec<Vec<Self>> = vec![];
        per.push(vec![Self::A]);
        per.push({ let l0 = <u8 as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); let l1 = <String as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); combos(&[l0.len(), l1.len()], n.max(1)).into_iter().map(|c: Vec<usize>| Self::B { x: l0[c[0]].dup(), y: l1[c[1]].dup() }).collect::<Vec<Self>>() });
        per.push({ let l0 = <u8 as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); let l1 = <String as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); combos(&[l0.len(), l1.len()], n.max(1)).into_iter().map(|c: Vec<usize>| Self::C(l0[c[0]].dup(), l1[c[1]].dup())).collect::<Vec<Self>>() });
        interleave(per, n)
    }
    fn into_v(self) -> Option<Value> { Some(self.into()) }
    fn dup(&self) -> Self {
        match self {
            Self::A => Self::A,
            Self::H(x0) => Self::H(x0.dup()),
            Self::B { x: x0, y: x1 } => Self::B { x: x0.dup(), y: x1.dup() },
            Self::C(x0, x1) => Self::C(x0.dup(), x1.dup()),
        }
    }
    fn dfmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        std::fmt::Debug::fmt(self, f)
    }
}

#[allow(dead_code)]
#[derive(Reflect, Clone, Debug)]
pub enum PlE7d {
    A,
    #[reflect(skip)]
    H(
        u8,
    ),
    B {
        x: u8,
        y: String,
    },
    C(
        /// c0 docs
        /// more
        u8,
        String,
    ),
}
#[allow(unused_variables, unused_mut, clippy::all)]
impl Modeled for PlE7d {
    fn t() -> T {
        T::Enum { name: std::any::type_name::<Self>(), variants: vec![VariantT { name: "A", kind: VK::Unit, fields: vec![], meta: vec![], docs: vec![] }, VariantT { name: "B", kind: VK::Struct, fields: vec![FieldT { name: Some("x"), ty: <u8 as Modeled>::t, with: None, meta: vec![], docs: vec![] }, FieldT { name: Some("y"), ty: <String as Modeled>::t, with: None, meta: vec![], docs: vec![] }], meta: vec![], docs: vec![] }, VariantT { name: "C", kind: VK::Tuple, fields: vec![FieldT { name: None, ty: <u8 as Modeled>::t, with: None, meta: vec![], docs: vec![" c0 docs", " more"] }, FieldT { name: None, ty: <String as Modeled>::t, with: None, meta: vec![], docs: vec![] }], meta: vec![], docs: vec![] }], skipped: vec!["H"], meta: vec![], docs: vec![] }
    }
    fn m(&self) -> M {
        match self {
            Self::A => M::Enum("A".into(), VK::Unit, vec![]),
            Self::H(x0) => M::Enum("H".into(), VK::Tuple, vec![]),
            Self::B { x: x0, y: x1 } => M::Enum("B".into(), VK::Struct, vec![(Some("x".into()), x0.m()), (Some("y".into()), x1.m())]),
            Self::C(x0, x1) => M::Enum("C".into(), VK::Tuple, vec![(None, x0.m()), (None, x1.m())]),
        }
    }
    fn hidden(&self) -> Vec<u8> {
        match self {
            _ => vec![],
        }
    }
    fn vals(n: usize, d: usize) -> Vec<Self> {
        let mut per: Vec<Vec<Self>> = vec![];
        per.push(vec![Self::A]);
        per.push({ let l0 = <u8 as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); let l1 = <String as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); combos(&[l0.len(), l1.len()], n.max(1)).into_iter().map(|c: Vec<usize>| Self::B { x: l0[c[0]].dup(), y: l1[c[1]].dup() }).collect::<Vec<Self>>() });
        per.push({ let l0 = <u8 as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); let l1 = <String as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); combos(&[l0.len(), l1.len()], n.max(1)).into_iter().map(|c: Vec<usize>| Self::C(l0[c[0]].dup(), l1[c[1]].dup())).collect::<Vec<Self>>() });
        interleave(per, n)
    }
    fn into_v(self) -> Option<Value> { Some(self.into()) }
    fn dup(&self) -> Self {
        match self {
            Self::A => Self::A,
            Self::H(x0) => Self::H(x0.dup()),
            Self::B { x: x0, y: x1 } => Self::B { x: x0.dup(), y: x1.dup() },
            Self::C(x0, x1) => Self::C(x0.dup(), x1.dup()),
        }
    }
    fn dfmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        std::fmt::Debug::fmt(self, f)
    }
}

#[allow(dead_code)]
/// type
#[derive(Reflect, Clone, Debug)]
#[reflect(meta(i = 2, v = vec![1_u8, 2]))]
pub enum PlE7x {
    /// A
    #[reflect(meta(i = 2, v = vec![1_u8, 2]))]
    A,
    /// H
    #[reflect(skip, meta(i = 2, v = vec![1_u8, 2]))]
    H(
        u8,
    ),
    /// B
    #[reflect(meta(i = 2, v = vec![1_u8, 2]))]
    B {
        /// bx
        #[reflect(meta(i = 2, v = vec![1_u8, 2]))] x: u8,
        /// by
        #[reflect(meta(i = 2, v = vec![1_u8, 2]))] y: String,
    },
    /// C
    #[reflect(meta(i = 2, v = vec![1_u8, 2]))]
    C(
        u8,
        /// c1
        #[reflect(meta(i = 2, v = vec![1_u8, 2]))] String,
    ),
}
#[allow(unused_variables, unused_mut, clippy::all)]
impl Modeled for PlE7x {
    fn t() -> T {
        T::Enum { name: std::any::type_name::<Self>(), variants: vec![VariantT { name: "A", kind: VK::Unit, fields: vec![], meta: vec![("i", || Value::from(2_i32)), ("v", || Value::List(vec![Value::u8(1), Value::u8(2)]))], docs: vec![" A"] }, VariantT { name: "B", kind: VK::Struct, fields: vec![FieldT { name: Some("x"), ty: <u8 as Modeled>::t, with: None, meta: vec![("i", || Value::from(2_i32)), ("v", || Value::List(vec![Value::u8(1), Value::u8(2)]))], docs: vec![" bx"] }, FieldT { name: Some("y"), ty: <String as Modeled>::t, with: None, meta: vec![("i", || Value::from(2_i32)), ("v", || Value::List(vec![Value::u8(1), Value::u8(2)]))], docs: vec![" by"] }], meta: vec![("i", || Value::from(2_i32)), ("v", || Value::List(vec![Value::u8(1), Value::u8(2)]))], docs: vec![" B"] }, VariantT { name: "C", kind: VK::Tuple, fields: vec![FieldT { name: None, ty: <u8 as Modeled>::t, with: None, meta: vec![], docs: vec![] }, FieldT { name: None, ty: <String as Modeled>::t, with: None, meta: vec![("i", || Value::from(2_i32)), ("v", || Value::List(vec![Value::u8(1), Value::u8(2)]))], docs: vec![" c1"] }], meta: vec![("i", || Value::from(2_i32)), ("v", || Value::List(vec![Value::u8(1), Value::u8(2)]))], docs: vec![" C"] }], skipped: vec!["H"], meta: vec![("i", || Value::from(2_i32)), ("v", || Value::List(vec![Value::u8(1), Value::u8(2)]))], docs: vec![" type"] }
    }
    fn m(&self) -> M {
        match self {
            Self::A => M::Enum("A".into(), VK::Unit, vec![]),
            Self::H(x0) => M::Enum("H".into(), VK::Tuple, vec![]),
            Self::B { x: x0, y: x1 } => M::Enum("B".into(), VK::Struct, vec![(Some("x".into()), x0.m()), (Some("y".into()), x1.m())]),
            Self::C(x0, x1) => M::Enum("C".into(), VK::Tuple, vec![(None, x0.m()), (None, x1.m())]),
        }
    }
    fn hidden(&self) -> Vec<u8> {
        match self {
            _ => vec![],
        }
    }
    fn vals(n: usize, d: usize) -> Vec<Self> {
        let mut per: Vec<Vec<Self>> = vec![];
        per.push(vec![Self::A]);
        per.push({ let l0 = <u8 as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); let l1 = <String as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); combos(&[l0.len(), l1.len()], n.max(1)).into_iter().map(|c: Vec<usize>| Self::B { x: l0[c[0]].dup(), y: l1[c[1]].dup() }).collect::<Vec<Self>>() });
        per.push({ let l0 = <u8 as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); let l1 = <String as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); combos(&[l0.len(), l1.len()], n.max(1)).into_iter().map(|c: Vec<usize>| Self::C(l0[c[0]].dup(), l1[c[1]].dup())).collect::<Vec<Self>>() });
        interleave(per, n)
    }
    fn into_v(self) -> Option<Value> { Some(self.into()) }
    fn dup(&self) -> Self {
        match self {
            Self::A => Self::A,
            Self::H(x0) => Self::H(x0.dup()),
            Self::B { x: x0, y: x1 } => Self::B { x: x0.dup(), y: x1.dup() },
            Self::C(x0, x1) => Self::C(x0.dup(), x1.dup()),
        }
    }
    fn dfmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        std::fmt::Debug::fmt(self, f)
    }
}

#[allow(dead_code)]
#[derive(Reflect, Clone, Debug)]
pub enum PlE8m {
    A,
    #[reflect(skip)]
    H(
        u8,
    ),
    B {
        x: u8,
        y: String,
    },
    C(
        u8,
        #[reflect(meta(i = 1, s = "text"))] String,
    ),
}
#[allow(unused_variables, unused_mut, clippy::all)]
impl Modeled for PlE8m {
    fn t() -> T {
        T::Enum { name: std::any::type_name::<Self>(), variants: vec![VariantT { name: "A", kind: VK::Unit, fields: vec![], meta: vec![], docs: vec![] }, VariantT { name: "B", kind: VK::Struct, fields: vec![FieldT { name: Some("x"), ty: <u8 as Modeled>::t, with: None, meta: vec![], docs: vec![] }, FieldT { name: Some("y"), ty: <String as Modeled>::t, with: None, meta: vec![], docs: vec![] }], meta: vec![], docs: vec![] }, VariantT { name: "C", kind: VK::Tuple, fields: vec![FieldT { name: None, ty: <u8 as Modeled>::t, with: None, meta: vec![], docs: vec![] }, FieldT { name: None, ty: <String as Modeled>::t, with: None, meta: vec![("i", || Value::from(1_i32)), ("s", || Value::from("text"))], docs: vec![] }], meta: vec![], docs: vec![] }], skipped: vec!["H"], meta: vec![], docs: vec![] }
    }
    fn m(&self) -> M {
        match self {
            Self::A => M::Enum("A".into(), VK::Unit, vec![]),
            Self::H(x0) => M::Enum("H".into(), VK::Tuple, vec![]),
            Self::B { x: x0, y: x1 } => M::Enum("B".into(), VK::Struct, vec![(Some("x".into()), x0.m()), (Some("y".into()), x1.m())]),
            Self::C(x0, x1) => M::Enum("C".into(), VK::Tuple, vec![(None, x0.m()), (None, x1.m())]),
        }
    }
    fn hidden(&self) -> Vec<u8> {
        match self {
            _ => vec![],
        }
    }
    fn vals(n: usize, d: usize) -> Vec<Self> {
        let mut per: Vec<Vec<Self>> = vec![];
        per.push(vec![Self::A]);
        per.push({ let l0 = <u8 as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); let l1 = <String as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); combos(&[l0.len(), l1.len()], n.max(1)).into_iter().map(|c: Vec<usize>| Self::B { x: l0[c[0]].dup(), y: l1[c[1]].dup() }).collect::<Vec<Self>>() });
        per.push({ let l0 = <u8 as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); let l1 = <String as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); combos(&[l0.len(), l1.len()], n.max(1)).into_iter().map(|c: Vec<usize>| Self::C(l0[c[0]].dup(), l1[c[1]].dup())).collect::<Vec<Self>>() });
        interleave(per, n)
    }
    fn into_v(self) -> Option<Value> { Some(self.into()) }
    fn dup(&self) -> Self {
        match self {
            Self::A => Self::A,
            Self::H(x0) => Self::H(x0.dup()),
            Self::B { x: x0, y: x1 } => Self::B { x: x0.dup(), y: x1.dup() },
            Self::C(x0, x1) => Self::C(x0.dup(), x1.dup()),
        }
    }
    fn dfmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        std::fmt::Debug::fmt(self, f)
    }
}

#[allow(dead_code)]
#[derive(Reflect, Clone, Debug)]
pub enum PlE8d {
    A,
    #[reflect(skip)]
    H(
        u8,
    ),
    B {
        x: u8,
        y: String,
    },
    C(
        u8,
        /// c1 docs
        /// more
        String,
    ),
}
#[allow(unused_variables, unused_mut, clippy::all)]
impl Modeled for PlE8d {
    fn t() -> T {
        T::Enum { name: std::any::type_name::<Self>(), variants: vec![VariantT { name: "A", kind: VK::Unit, fields: vec![], meta: vec![], docs: vec![] }, VariantT { name: "B", kind: VK::Struct, fields: vec![FieldT { name: Some("x"), ty: <u8 as Modeled>::t, with: None, meta: vec![], docs: vec![] }, FieldT { name: Some("y"), ty: <String as Modeled>::t, with: None, meta: vec![], docs: vec![] }], meta: vec![], docs: vec![] }, VariantT { name: "C", kind: VK::Tuple, fields: vec![FieldT { name: None, ty: <u8 as Modeled>::t, with: None, meta: vec![], docs: vec![] }, FieldT { name: None, ty: <String as Modeled>::t, with: None, meta: vec![], docs: vec![" c1 docs", " more"] }], meta: vec![], docs: vec![] }], skipped: vec!["H"], meta: vec![], docs: vec![] }
    }
    fn m(&self) -> M {
        match self {
            Self::A => M::Enum("A".into(), VK::Unit, vec![]),
            Self::H(x0) => M::Enum("H".into(), VK::Tuple, vec![]),
            Self::B { x: x0, y: x1 } => M::Enum("B".into(), VK::Struct, vec![(Some("x".into()), x0.m()), (Some("y".into()), x1.m())]),
            Self::C(x0, x1) => M::Enum("C".into(), VK::Tuple, vec![(None, x0.m()), (None, x1.m())]),
        }
    }
    fn hidden(&self) -> Vec<u8> {
        match self {
            _ => vec![],
        }
    }
    fn vals(n: usize, d: usize) -> Vec<Self> {
        let mut per: Vec<Vec<Self>> = vec![];
        per.push(vec![Self::A]);
        per.push({ let l0 = <u8 as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); let l1 = <String as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); combos(&[l0.len(), l1.len()], n.max(1)).into_iter().map(|c: Vec<usize>| Self::B { x: l0[c[0]].dup(), y: l1[c[1]].dup() }).collect::<Vec<Self>>() });
        per.push({ let l0 = <u8 as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); let l1 = <String as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); combos(&[l0.len(), l1.len()], n.max(1)).into_iter().map(|c: Vec<usize>| Self::C(l0[c[0]].dup(), l1[c[1]].dup())).collect::<Vec<Self>>() });
        interleave(per, n)
    }
    fn into_v(self) -> Option<Value> { Some(self.into()) }
    fn dup(&self) -> Self {
        match self {
            Self::A => Self::A,
            Self::H(x0) => Self::H(x0.dup()),
            Self::B { x: x0, y: x1 } => Self::B { x: x0.dup(), y: x1.dup() },
            Self::C(x0, x1) => Self::C(x0.dup(), x1.dup()),
        }
    }
    fn dfmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        std::fmt::Debug::fmt(self, f)
    }
}

#[allow(dead_code)]
/// type
#[derive(Reflect, Clone, Debug)]
#[reflect(meta(i = 2, v = vec![1_u8, 2]))]
pub enum PlE8x {
    /// A
    #[reflect(meta(i = 2, v = vec![1_u8, 2]))]
    A,
    /// H
    #[reflect(skip, meta(i = 2, v = vec![1_u8, 2]))]
    H(
        u8,
    ),
    /// B
    #[reflect(meta(i = 2, v = vec![1_u8, 2]))]
    B {
        /// bx
        #[reflect(meta(i = 2, v = vec![1_u8, 2]))] x: u8,
        /// by
        #[reflect(meta(i = 2, v = vec![1_u8, 2]))] y: String,
    },
    /// C
    #[reflect(meta(i = 2, v = vec![1_u8, 2]))]
    C(
        /// c0
        #[reflect(meta(i = 2, v = vec![1_u8, 2]))] u8,
        String,
    ),
}
#[allow(unused_variables, unused_mut, clippy::all)]
impl Modeled for PlE8x {
    fn t() -> T {
        T::Enum { name: std::any::type_name::<Self>(), variants: vec![VariantT { name: "A", kind: VK::Unit, fields: vec![], meta: vec![("i", || Value::from(2_i32)), ("v", || Value::List(vec![Value::u8(1), Value::u8(2)]))], docs: vec![" A"] }, VariantT { name: "B", kind: VK::Struct, fields: vec![FieldT { name: Some("x"), ty: <u8 as Modeled>::t, with: None, meta: vec![("i", || Value::from(2_i32)), ("v", || Value::List(vec![Value::u8(1), Value::u8(2)]))], docs: vec![" bx"] }, FieldT { name: Some("y"), ty: <String as Modeled>::t, with: None, meta: vec![("i", || Value::from(2_i32)), ("v", || Value::List(vec![Value::u8(1), Value::u8(2)]))], docs: vec![" by"] }], meta: vec![("i", || Value::from(2_i32)), ("v", || Value::List(vec![Value::u8(1), Value::u8(2)]))], docs: vec![" B"] }, VariantT { name: "C", kind: VK::Tuple, fields: vec![FieldT { name: None, ty: <u8 as Modeled>::t, with: None, meta: vec![("i", || Value::from(2_i32)), ("v", || Value::List(vec![Value::u8(1), Value::u8(2)]))], docs: vec![" c0"] }, FieldT { name: None, ty: <String as Modeled>::t, with: None, meta: vec![], docs: vec![] }], meta: vec![("i", || Value::from(2_i32)), ("v", || Value::List(vec![Value::u8(1), Value::u8(2)]))], docs: vec![" C"] }], skipped: vec!["H"], meta: vec![("i", || Value::from(2_i32)), ("v", || Value::List(vec![Value::u8(1), Value::u8(2)]))], docs: vec![" type"] }
    }
    fn m(&self) -> M {
        match self {
            Self::A => M::Enum("A".into(), VK::Unit, vec![]),
            Self::H(x0) => M::Enum("H".into(), VK::Tuple, vec![]),
            Self::B { x: x0, y: x1 } => M::Enum("B".into(), VK::Struct, vec![(Some("x".into()), x0.m()), (Some("y".into()), x1.m())]),
            Self::C(x0, x1) => M::Enum("C".into(), VK::Tuple, vec![(None, x0.m()), (None, x1.m())]),
        }
    }
    fn hidden(&self) -> Vec<u8> {
        match self {
            _ => vec![],
        }
    }
    fn vals(n: usize, d: usize) -> Vec<Self> {
        let mut per: Vec<Vec<Self>> = vec![];
        per.push(vec![Self::A]);
        per.push({ let l0 = <u8 as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); let l1 = <String as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); combos(&[l0.len(), l1.len()], n.max(1)).into_iter().map(|c: Vec<usize>| Self::B { x: l0[c[0]].dup(), y: l1[c[1]].dup() }).collect::<Vec<Self>>() });
        per.push({ let l0 = <u8 as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); let l1 = <String as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); combos(&[l0.len(), l1.len()], n.max(1)).into_iter().map(|c: Vec<usize>| Self::C(l0[c[0]].dup(), l1[c[1]].dup())).collect::<Vec<Self>>() });
        interleave(per, n)
    }
    fn into_v(self) -> Option<Value> { Some(self.into()) }
    fn dup(&self) -> Self {
        match self {
            Self::A => Self::A,
            Self::H(x0) => Self::H(x0.dup()),
            Self::B { x: x0, y: x1 } => Self::B { x: x0.dup(), y: x1.dup() },
            Self::C(x0, x1) => Self::C(x0.dup(), x1.dup()),
        }
    }
    fn dfmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        std::fmt::Debug::fmt(self, f)
    }
}

#[allow(dead_code)]
/// type docs
#[derive(Reflect, Clone, Debug)]
#[reflect(meta(ktype = "type"))]
pub enum PlEall {
    /// A docs
    #[reflect(meta(kA = "A"))]
    A,
    /// H docs
    #[reflect(skip, meta(kH = "H"))]
    H(
        u8,
    ),
    /// B docs
    #[reflect(meta(kB = "B"))]
    B {
        /// bx docs
        #[reflect(meta(kbx = "bx"))] x: u8,
        /// by docs
        #[reflect(meta(kby = "by"))] y: String,
    },
    /// C docs
    #[reflect(meta(kC = "C"))]
    C(
        /// c0 docs
        #[reflect(meta(kc0 = "c0"))] u8,
        /// c1 docs
        #[reflect(meta(kc1 = "c1"))] String,
    ),
}
#[allow(unused_variables, unused_mut, clippy::all)]
impl Modeled for PlEall {
    fn t() -> T {
        T::Enum { name: std::any::type_name::<Self>(), variants: vec![VariantT { name: "A", kind: VK::Unit, fields: vec![], meta: vec![("kA", || Value::from("A"))], docs: vec![" A docs"] }, VariantT { name: "B", kind: VK::Struct, fields: vec![FieldT { name: Some("x"), ty: <u8 as Modeled>::t, with: None, meta: vec![("kbx", || Value::from("bx"))], docs: vec![" bx docs"] }, FieldT { name: Some("y"), ty: <String as Modeled>::t, with: None, meta: vec![("kby", || Value::from("by"))], docs: vec![" by docs"] }], meta: vec![("kB", || Value::from("B"))], docs: vec![" B docs"] }, VariantT { name: "C", kind: VK::Tuple, fields: vec![FieldT { name: None, ty: <u8 as Modeled>::t, with: None, meta: vec![("kc0", || Value::from("c0"))], docs: vec![" c0 docs"] }, FieldT { name: None, ty: <String as Modeled>::t, with: None, meta: vec![("kc1", || Value::from("c1"))], docs: vec![" c1 docs"] }], meta: vec![("kC", || Value::from("C"))], docs: vec![" C docs"] }], skipped: vec!["H"], meta: vec![("ktype", || Value::from("type"))], docs: vec![" type docs"] }
    }
    fn m(&self) -> M {
        match self {
            Self::A => M::Enum("A".into(), VK::Unit, vec![]),
            Self::H(x0) => M::Enum("H".into(), VK::Tuple, vec![]),
            Self::B { x: x0, y: x1 } => M::Enum("B".into(), VK::Struct, vec![(Some("x".into()), x0.m()), (Some("y".into()), x1.m())]),
            Self::C(x0, x1) => M::Enum("C".into(), VK::Tuple, vec![(None, x0.m()), (None, x1.m())]),
        }
    }
    fn hidden(&self) -> Vec<u8> {
        match self {
            _ => vec![],
        }
    }
    fn vals(n: usize, d: usize) -> Vec<Self> {
        let mut per: Vec<Vec<Self>> = vec![];
        per.push(vec![Self::A]);
        per.push({ let l0 = <u8 as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); let l1 = <String as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); combos(&[l0.len(), l1.len()], n.max(1)).into_iter().map(|c: Vec<usize>| Self::B { x: l0[c[0]].dup(), y: l1[c[1]].dup() }).collect::<Vec<Self>>() });
        per.push({ let l0 = <u8 as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); let l1 = <String as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); combos(&[l0.len(), l1.len()], n.max(1)).into_iter().map(|c: Vec<usize>| Self::C(l0[c[0]].dup(), l1[c[1]].dup())).collect::<Vec<Self>>() });
        interleave(per, n)
    }
    fn into_v(self) -> Option<Value> { Some(self.into()) }
    fn dup(&self) -> Self {
        match self {
            Self::A => Self::A,
            Self::H(x0) => Self::H(x0.dup()),
            Self::B { x: x0, y: x1 } => Self::B { x: x0.dup(), y: x1.dup() },
            Self::C(x0, x1) => Self::C(x0.dup(), x1.dup()),
        }
    }
    fn dfmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        std::fmt::Debug::fmt(self, f)
    }
}

#[allow(dead_code)]
#[derive(Reflect, Clone, Debug)]
pub struct HoldsDyn {
    pub v: Value,
    pub s: mirror_mirror::struct_::StructValue,
    pub t: mirror_mirror::tuple::TupleValue,
}
#[allow(unused_variables, unused_mut, clippy::all)]
impl Modeled for HoldsDyn {
    fn t() -> T {
        T::Struct { name: std::any::type_name::<Self>(), fields: vec![FieldT { name: Some("v"), ty: <Value as Modeled>::t, with: None, meta: vec![], docs: vec![] }, FieldT { name: Some("s"), ty: <mirror_mirror::struct_::StructValue as Modeled>::t, with: None, meta: vec![], docs: vec![] }, FieldT { name: Some("t"), ty: <mirror_mirror::tuple::TupleValue as Modeled>::t, with: None, meta: vec![], docs: vec![] }], meta: vec![], docs: vec![] }
    }
    fn m(&self) -> M {
        M::Struct(vec![("v".to_owned(), self.v.m()), ("s".to_owned(), self.s.m()), ("t".to_owned(), self.t.m())])
    }
    fn hidden(&self) -> Vec<u8> {
        vec![]
    }
    fn vals(n: usize, d: usize) -> Vec<Self> {
        let l0 = <Value as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); let l1 = <mirror_mirror::struct_::StructValue as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); let l2 = <mirror_mirror::tuple::TupleValue as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); combos(&[l0.len(), l1.len(), l2.len()], n.max(1)).into_iter().map(|c: Vec<usize>| Self { v: l0[c[0]].dup(), s: l1[c[1]].dup(), t: l2[c[2]].dup() }).collect::<Vec<Self>>()
    }
    fn into_v(self) -> Option<Value> { Some(self.into()) }
    fn dup(&self) -> Self {
        Self { v: self.v.dup(), s: self.s.dup(), t: self.t.dup() }
    }
    fn dfmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        std::fmt::Debug::fmt(self, f)
    }
}

#[allow(dead_code)]
#[derive(Reflect, Clone, Debug)]
pub struct HoldsDynT(
    pub mirror_mirror::enum_::EnumValue,
    pub mirror_mirror::tuple_struct::TupleStructValue,
    pub Vec<Value>,
);
#[allow(unused_variables, unused_mut, clippy::all)]
impl Modeled for HoldsDynT {
    fn t() -> T {
        T::TupleStruct { name: std::any::type_name::<Self>(), fields: vec![FieldT { name: None, ty: <mirror_mirror::enum_::EnumValue as Modeled>::t, with: None, meta: vec![], docs: vec![] }, FieldT { name: None, ty: <mirror_mirror::tuple_struct::TupleStructValue as Modeled>::t, with: None, meta: vec![], docs: vec![] }, FieldT { name: None, ty: <Vec<Value> as Modeled>::t, with: None, meta: vec![], docs: vec![] }], meta: vec![], docs: vec![] }
    }
    fn m(&self) -> M {
        M::TupleStruct(vec![self.0.m(), self.1.m(), self.2.m()])
    }
    fn hidden(&self) -> Vec<u8> {
        vec![]
    }
    fn vals(n: usize, d: usize) -> Vec<Self> {
        let l0 = <mirror_mirror::enum_::EnumValue as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); let l1 = <mirror_mirror::tuple_struct::TupleStructValue as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); let l2 = <Vec<Value> as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); combos(&[l0.len(), l1.len(), l2.len()], n.max(1)).into_iter().map(|c: Vec<usize>| Self(l0[c[0]].dup(), l1[c[1]].dup(), l2[c[2]].dup())).collect::<Vec<Self>>()
    }
    fn into_v(self) -> Option<Value> { Some(self.into()) }
    fn dup(&self) -> Self {
        Self(self.0.dup(), self.1.dup(), self.2.dup())
    }
    fn dfmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        std::fmt::Debug::fmt(self, f)
    }
}

#[allow(dead_code)]
#[derive(Reflect, Clone, Debug)]
pub enum HoldsDynE {
    A(
        Value,
    ),
    B {
        m: BTreeMap<String, Value>,
    },
}
#[allow(unused_variables, unused_mut, clippy::all)]
impl Modeled for HoldsDynE {
    fn t() -> T {
        T::Enum { name: std::any::type_name::<Self>(), variants: vec![VariantT { name: "A", kind: VK::Tuple, fields: vec![FieldT { name: None, ty: <Value as Modeled>::t, with: None, meta: vec![], docs: vec![] }], meta: vec![], docs: vec![] }, VariantT { name: "B", kind: VK::Struct, fields: vec![FieldT { name: Some("m"), ty: <BTreeMap<String, Value> as Modeled>::t, with: None, meta: vec![], docs: vec![] }], meta: vec![], docs: vec![] }], skipped: vec![], meta: vec![], docs: vec![] }
    }
    fn m(&self) -> M {
        match self {
            Self::A(x0) => M::Enum("A".into(), VK::Tuple, vec![(None, x0.m())]),
            Self::B { m: x0 } => M::Enum("B".into(), VK::Struct, vec![(Some("m".into()), x0.m())]),
        }
    }
    fn hidden(&self) -> Vec<u8> {
        match self {
            _ => vec![],
        }
    }
    fn vals(n: usize, d: usize) -> Vec<Self> {
        let mut per: Vec<Vec<Self>> = vec![];
        per.push({ let l0 = <Value as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); combos(&[l0.len()], n.max(1)).into_iter().map(|c: Vec<usize>| Self::A(l0[c[0]].dup())).collect::<Vec<Self>>() });
        per.push({ let l0 = <BTreeMap<String, Value> as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); combos(&[l0.len()], n.max(1)).into_iter().map(|c: Vec<usize>| Self::B { m: l0[c[0]].dup() }).collect::<Vec<Self>>() });
        interleave(per, n)
    }
    fn into_v(self) -> Option<Value> { Some(self.into()) }
    fn dup(&self) -> Self {
        match self {
            Self::A(x0) => Self::A(x0.dup()),
            Self::B { m: x0 } => Self::B { m: x0.dup() },
        }
    }
    fn dfmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        std::fmt::Debug::fmt(self, f)
    }
}

#[allow(dead_code)]
#[derive(Reflect, Clone, Debug)]
pub struct HoldsOp {
    pub a: OpA,
    pub b: OpB,
    pub c: Vec<OpA>,
    pub d: u8,
}
#[allow(unused_variables, unused_mut, clippy::all)]
impl Modeled for HoldsOp {
    fn t() -> T {
        T::Struct { name: std::any::type_name::<Self>(), fields: vec![FieldT { name: Some("a"), ty: <OpA as Modeled>::t, with: None, meta: vec![], docs: vec![] }, FieldT { name: Some("b"), ty: <OpB as Modeled>::t, with: None, meta: vec![], docs: vec![] }, FieldT { name: Some("c"), ty: <Vec<OpA> as Modeled>::t, with: None, meta: vec![], docs: vec![] }, FieldT { name: Some("d"), ty: <u8 as Modeled>::t, with: None, meta: vec![], docs: vec![] }], meta: vec![], docs: vec![] }
    }
    fn m(&self) -> M {
        M::Struct(vec![("a".to_owned(), self.a.m()), ("b".to_owned(), self.b.m()), ("c".to_owned(), self.c.m()), ("d".to_owned(), self.d.m())])
    }
    fn hidden(&self) -> Vec<u8> {
        vec![]
    }
    fn vals(n: usize, d: usize) -> Vec<Self> {
        let l0 = <OpA as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); let l1 = <OpB as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); let l2 = <Vec<OpA> as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); let l3 = <u8 as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); combos(&[l0.len(), l1.len(), l2.len(), l3.len()], n.max(1)).into_iter().map(|c: Vec<usize>| Self { a: l0[c[0]].dup(), b: l1[c[1]].dup(), c: l2[c[2]].dup(), d: l3[c[3]].dup() }).collect::<Vec<Self>>()
    }
    fn into_v(self) -> Option<Value> { Some(self.into()) }
    fn dup(&self) -> Self {
        Self { a: self.a.dup(), b: self.b.dup(), c: self.c.dup(), d: self.d.dup() }
    }
    fn dfmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        std::fmt::Debug::fmt(self, f)
    }
}

#[allow(dead_code)]
#[derive(Reflect, Clone, Debug)]
pub struct HoldsOpT(
    pub OpB,
    pub Option<OpA>,
);
#[allow(unused_variables, unused_mut, clippy::all)]
impl Modeled for HoldsOpT {
    fn t() -> T {
        T::TupleStruct { name: std::any::type_name::<Self>(), fields: vec![FieldT { name: None, ty: <OpB as Modeled>::t, with: None, meta: vec![], docs: vec![] }, FieldT { name: None, ty: <Option<OpA> as Modeled>::t, with: None, meta: vec![], docs: vec![] }], meta: vec![], docs: vec![] }
    }
    fn m(&self) -> M {
        M::TupleStruct(vec![self.0.m(), self.1.m()])
    }
    fn hidden(&self) -> Vec<u8> {
        vec![]
    }
    fn vals(n: usize, d: usize) -> Vec<Self> {
        let l0 = <OpB as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); let l1 = <Option<OpA> as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); combos(&[l0.len(), l1.len()], n.max(1)).into_iter().map(|c: Vec<usize>| Self(l0[c[0]].dup(), l1[c[1]].dup())).collect::<Vec<Self>>()
    }
    fn into_v(self) -> Option<Value> { Some(self.into()) }
    fn dup(&self) -> Self {
        Self(self.0.dup(), self.1.dup())
    }
    fn dfmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        std::fmt::Debug::fmt(self, f)
    }
}

#[allow(dead_code)]
#[derive(Reflect, Clone, Debug)]
pub enum HoldsOpE {
    A(
        OpB,
    ),
    B {
        x: OpA,
    },
}
#[allow(unused_variables, unused_mut, clippy::all)]
impl Modeled for HoldsOpE {
    fn t() -> T {
        T::Enum { name: std::any::type_name::<Self>(), variants: vec![VariantT { name: "A", kind: VK::Tuple, fields: vec![FieldT { name: None, ty: <OpB as Modeled>::t, with: None, meta: vec![], docs: vec![] }], meta: vec![], docs: vec![] }, VariantT { name: "B", kind: VK::Struct, fields: vec![FieldT { name: Some("x"), ty: <OpA as Modeled>::t, with: None, meta: vec![], docs: vec![] }], meta: vec![], docs: vec![] }], skipped: vec![], meta: vec![], docs: vec![] }
    }
    fn m(&self) -> M {
        match self {
            Self::A(x0) => M::Enum("A".into(), VK::Tuple, vec![(None, x0.m())]),
            Self::B { x: x0 } => M::Enum("B".into(), VK::Struct, vec![(Some("x".into()), x0.m())]),
        }
    }
    fn hidden(&self) -> Vec<u8> {
        match self {
            _ => vec![],
        }
    }
    fn vals(n: usize, d: usize) -> Vec<Self> {
        let mut per: Vec<Vec<Self>> = vec![];
        per.push({ let l0 = <OpB as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); combos(&[l0.len()], n.max(1)).into_iter().map(|c: Vec<usize>| Self::A(l0[c[0]].dup())).collect::<Vec<Self>>() });
        per.push({ let l0 = <OpA as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); combos(&[l0.len()], n.max(1)).into_iter().map(|c: Vec<usize>| Self::B { x: l0[c[0]].dup() }).collect::<Vec<Self>>() });
        interleave(per, n)
    }
    fn into_v(self) -> Option<Value> { Some(self.into()) }
    fn dup(&self) -> Self {
        match self {
            Self::A(x0) => Self::A(x0.dup()),
            Self::B { x: x0 } => Self::B { x: x0.dup() },
        }
    }
    fn dfmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        std::fmt::Debug::fmt(self, f)
    }
}

#[allow(dead_code)]
#[derive(Reflect, Clone, Debug)]
pub struct Deep {
    pub a: S2m0,
    pub b: Vec<E2m0>,
    pub c: BTreeMap<u8, T2m0>,
    pub d: (u8, Option<S1m0>),
    pub e: [Vec<u8>; 2],
}
#[allow(unused_variables, unused_mut, clippy::all)]
impl Modeled for Deep {
    fn t() -> T {
        T::Struct { name: std::any::type_name::<Self>(), fields: vec![FieldT { name: Some("a"), ty: <S2m0 as Modeled>::t, with: None, meta: vec![], docs: vec![] }, FieldT { name: Some("b"), ty: <Vec<E2m0> as Modeled>::t, with: None, meta: vec![], docs: vec![] }, FieldT { name: Some("c"), ty: <BTreeMap<u8, T2m0> as Modeled>::t, with: None, meta: vec![], docs: vec![] }, FieldT { name: Some("d"), ty: <(u8, Option<S1m0>) as Modeled>::t, with: None, meta: vec![], docs: vec![] }, FieldT { name: Some("e"), ty: <[Vec<u8>; 2] as Modeled>::t, with: None, meta: vec![], docs: vec![] }], meta: vec![], docs: vec![] }
    }
    fn m(&self) -> M {
        M::Struct(vec![("a".to_owned(), self.a.m()), ("b".to_owned(), self.b.m()), ("c".to_owned(), self.c.m()), ("d".to_owned(), self.d.m()), ("e".to_owned(), self.e.m())])
    }
    fn hidden(&self) -> Vec<u8> {
        vec![]
    }
    fn vals(n: usize, d: usize) -> Vec<Self> {
        let l0 = <S2m0 as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); let l1 = <Vec<E2m0> as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); let l2 = <BTreeMap<u8, T2m0> as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); let l3 = <(u8, Option<S1m0>) as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); let l4 = <[Vec<u8>; 2] as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); combos(&[l0.len(), l1.len(), l2.len(), l3.len(), l4.len()], n.max(1)).into_iter().map(|c: Vec<usize>| Self { a: l0[c[0]].dup(), b: l1[c[1]].dup(), c: l2[c[2]].dup(), d: l3[c[3]].dup(), e: l4[c[4]].dup() }).collect::<Vec<Self>>()
    }
    fn into_v(self) -> Option<Value> { Some(self.into()) }
    fn dup(&self) -> Self {
        Self { a: self.a.dup(), b: self.b.dup(), c: self.c.dup(), d: self.d.dup(), e: self.e.dup() }
    }
    fn dfmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        std::fmt::Debug::fmt(self, f)
    }
}

#[allow(dead_code)]
#[derive(Reflect, Clone, Debug)]
pub enum DeepE {
    A {
        s: S2m0,
        l: Vec<Option<u8>>,
    },
    B(
        Box<E2m0>,
        BTreeMap<String, Vec<u8>>,
    ),
}
#[allow(unused_variables, unused_mut, clippy::all)]
impl Modeled for DeepE {
    fn t() -> T {
        T::Enum { name: std::any::type_name::<Self>(), variants: vec![VariantT { name: "A", kind: VK::Struct, fields: vec![FieldT { name: Some("s"), ty: <S2m0 as Modeled>::t, with: None, meta: vec![], docs: vec![] }, FieldT { name: Some("l"), ty: <Vec<Option<u8>> as Modeled>::t, with: None, meta: vec![], docs: vec![] }], meta: vec![], docs: vec![] }, VariantT { name: "B", kind: VK::Tuple, fields: vec![FieldT { name: None, ty: <Box<E2m0> as Modeled>::t, with: None, meta: vec![], docs: vec![] }, FieldT { name: None, ty: <BTreeMap<String, Vec<u8>> as Modeled>::t, with: None, meta: vec![], docs: vec![] }], meta: vec![], docs: vec![] }], skipped: vec![], meta: vec![], docs: vec![] }
    }
    fn m(&self) -> M {
        match self {
            Self::A { s: x0, l: x1 } => M::Enum("A".into(), VK::Struct, vec![(Some("s".into()), x0.m()), (Some("l".into()), x1.m())]),
            Self::B(x0, x1) => M::Enum("B".into(), VK::Tuple, vec![(None, x0.m()), (None, x1.m())]),
        }
    }
    fn hidden(&self) -> Vec<u8> {
        match self {
            _ => vec![],
        }
    }
    fn vals(n: usize, d: usize) -> Vec<Self> {
        let mut per: Vec<Vec<Self>> = vec![];
        per.push({ let l0 = <S2m0 as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); let l1 = <Vec<Option<u8>> as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); combos(&[l0.len(), l1.len()], n.max(1)).into_iter().map(|c: Vec<usize>| Self::A { s: l0[c[0]].dup(), l: l1[c[1]].dup() }).collect::<Vec<Self>>() });
        per.push({ let l0 = <Box<E2m0> as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); let l1 = <BTreeMap<String, Vec<u8>> as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); combos(&[l0.len(), l1.len()], n.max(1)).into_iter().map(|c: Vec<usize>| Self::B(l0[c[0]].dup(), l1[c[1]].dup())).collect::<Vec<Self>>() });
        interleave(per, n)
    }
    fn into_v(self) -> Option<Value> { Some(self.into()) }
    fn dup(&self) -> Self {
        match self {
            Self::A { s: x0, l: x1 } => Self::A { s: x0.dup(), l: x1.dup() },
            Self::B(x0, x1) => Self::B(x0.dup(), x1.dup()),
        }
    }
    fn dfmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        std::fmt::Debug::fmt(self, f)
    }
}

#[allow(dead_code)]
#[derive(Reflect, Clone, Debug)]
pub struct Wide {
    pub f0: u8,
    pub f1: u8,
    pub f2: u8,
    pub f3: u8,
    pub f4: u8,
    pub f5: u8,
    pub f6: u8,
    pub f7: u8,
    pub f8: u8,
    pub f9: u8,
    pub f10: u8,
    pub f11: u8,
    pub f12: u8,
}
#[allow(unused_variables, unused_mut, clippy::all)]
impl Modeled for Wide {
    fn t() -> T {
        T::Struct { name: std::any::type_name::<Self>(), fields: vec![FieldT { name: Some("f0"), ty: <u8 as Modeled>::t, with: None, meta: vec![], docs: vec![] }, FieldT { name: Some("f1"), ty: <u8 as Modeled>::t, with: None, meta: vec![], docs: vec![] }, FieldT { name: Some("f2"), ty: <u8 as Modeled>::t, with: None, meta: vec![], docs: vec![] }, FieldT { name: Some("f3"), ty: <u8 as Modeled>::t, with: None, meta: vec![], docs: vec![] }, FieldT { name: Some("f4"), ty: <u8 as Modeled>::t, with: None, meta: vec![], docs: vec![] }, FieldT { name: Some("f5"), ty: <u8 as Modeled>::t, with: None, meta: vec![], docs: vec![] }, FieldT { name: Some("f6"), ty: <u8 as Modeled>::t, with: None, meta: vec![], docs: vec![] }, FieldT { name: Some("f7"), ty: <u8 as Modeled>::t, with: None, meta: vec![], docs: vec![] }, FieldT { name: Some("f8"), ty: <u8 as Modeled>::t, with: None, meta: vec![], docs: vec![] }, FieldT { name: Some("f9"), ty: <u8 as Modeled>::t, with: None, meta: vec![], docs: vec![] }, FieldT { name: Some("f10"), ty: <u8 as Modeled>::t, with: None, meta: vec![], docs: vec![] }, FieldT { name: Some("f11"), ty: <u8 as Modeled>::t, with: None, meta: vec![], docs: vec![] }, FieldT { name: Some("f12"), ty: <u8 as Modeled>::t, with: None, meta: vec![], docs: vec![] }], meta: vec![], docs: vec![] }
    }
    fn m(&self) -> M {
        M::Struct(vec![("f0".to_owned(), self.f0.m()), ("f1".to_owned(), self.f1.m()), ("f2".to_owned(), self.f2.m()), ("f3".to_owned(), self.f3.m()), ("f4".to_owned(), self.f4.m()), ("f5".to_owned(), self.f5.m()), ("f6".to_owned(), self.f6.m()), ("f7".to_owned(), self.f7.m()), ("f8".to_owned(), self.f8.m()), ("f9".to_owned(), self.f9.m()), ("f10".to_owned(), self.f10.m()), ("f11".to_owned(), self.f11.m()), ("f12".to_owned(), self.f12.m())])
    }
    fn hidden(&self) -> Vec<u8> {
        vec![]
    }
    fn vals(n: usize, d: usize) -> Vec<Self> {
        let l0 = <u8 as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); let l1 = <u8 as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); let l2 = <u8 as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); let l3 = <u8 as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); let l4 = <u8 as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); let l5 = <u8 as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); let l6 = <u8 as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); let l7 = <u8 as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); let l8 = <u8 as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); let l9 = <u8 as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); let l10 = <u8 as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); let l11 = <u8 as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); let l12 = <u8 as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); combos(&[l0.len(), l1.len(), l2.len(), l3.len(), l4.len(), l5.len(), l6.len(), l7.len(), l8.len(), l9.len(), l10.len(), l11.len(), l12.len()], n.max(1)).into_iter().map(|c: Vec<usize>| Self { f0: l0[c[0]].dup(), f1: l1[c[1]].dup(), f2: l2[c[2]].dup(), f3: l3[c[3]].dup(), f4: l4[c[4]].dup(), f5: l5[c[5]].dup(), f6: l6[c[6]].dup(), f7: l7[c[7]].dup(), f8: l8[c[8]].dup(), f9: l9[c[9]].dup(), f10: l10[c[10]].dup(), f11: l11[c[11]].dup(), f12: l12[c[12]].dup() }).collect::<Vec<Self>>()
    }
    fn into_v(self) -> Option<Value> { Some(self.into()) }
    fn dup(&self) -> Self {
        Self { f0: self.f0.dup(), f1: self.f1.dup(), f2: self.f2.dup(), f3: self.f3.dup(), f4: self.f4.dup(), f5: self.f5.dup(), f6: self.f6.dup(), f7: self.f7.dup(), f8: self.f8.dup(), f9: self.f9.dup(), f10: self.f10.dup(), f11: self.f11.dup(), f12: self.f12.dup() }
    }
    fn dfmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        std::fmt::Debug::fmt(self, f)
    }
}

#[allow(dead_code)]
#[derive(Reflect, Clone, Debug)]
pub struct WideT(
    pub u8,
    pub u8,
    pub u8,
    pub u8,
    pub u8,
    pub u8,
    pub u8,
    pub u8,
    pub u8,
    pub u8,
    pub u8,
    pub u8,
    pub u8,
);
#[allow(unused_variables, unused_mut, clippy::all)]
impl Modeled for WideT {
    fn t() -> T {
        T::TupleStruct { name: std::any::type_name::<Self>(), fields: vec![FieldT { name: None, ty: <u8 as Modeled>::t, with: None, meta: vec![], docs: vec![] }, FieldT { name: None, ty: <u8 as Modeled>::t, with: None, meta: vec![], docs: vec![] }, FieldT { name: None, ty: <u8 as Modeled>::t, with: None, meta: vec![], docs: vec![] }, FieldT { name: None, ty: <u8 as Modeled>::t, with: None, meta: vec![], docs: vec![] }, FieldT { name: None, ty: <u8 as Modeled>::t, with: None, meta: vec![], docs: vec![] }, FieldT { name: None, ty: <u8 as Modeled>::t, with: None, meta: vec![], docs: vec![] }, FieldT { name: None, ty: <u8 as Modeled>::t, with: None, meta: vec![], docs: vec![] }, FieldT { name: None, ty: <u8 as Modeled>::t, with: None, meta: vec![], docs: vec![] }, FieldT { name: None, ty: <u8 as Modeled>::t, with: None, meta: vec![], docs: vec![] }, FieldT { name: None, ty: <u8 as Modeled>::t, with: None, meta: vec![], docs: vec![] }, FieldT { name: None, ty: <u8 as Modeled>::t, with: None, meta: vec![], docs: vec![] }, FieldT { name: None, ty: <u8 as Modeled>::t, with: None, meta: vec![], docs: vec![] }, FieldT { name: None, ty: <u8 as Modeled>::t, with: None, meta: vec![], docs: vec![] }], meta: vec![], docs: vec![] }
    }
    fn m(&self) -> M {
        M::TupleStruct(vec![self.0.m(), self.1.m(), self.2.m(), self.3.m(), self.4.m(), self.5.m(), self.6.m(), self.7.m(), self.8.m(), self.9.m(), self.10.m(), self.11.m(), self.12.m()])
    }
    fn hidden(&self) -> Vec<u8> {
        vec![]
    }
    fn vals(n: usize, d: usize) -> Vec<Self> {
        let l0 = <u8 as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); let l1 = <u8 as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); let l2 = <u8 as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); let l3 = <u8 as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); let l4 = <u8 as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); let l5 = <u8 as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); let l6 = <u8 as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); let l7 = <u8 as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); let l8 = <u8 as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); let l9 = <u8 as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); let l10 = <u8 as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); let l11 = <u8 as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); let l12 = <u8 as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); combos(&[l0.len(), l1.len(), l2.len(), l3.len(), l4.len(), l5.len(), l6.len(), l7.len(), l8.len(), l9.len(), l10.len(), l11.len(), l12.len()], n.max(1)).into_iter().map(|c: Vec<usize>| Self(l0[c[0]].dup(), l1[c[1]].dup(), l2[c[2]].dup(), l3[c[3]].dup(), l4[c[4]].dup(), l5[c[5]].dup(), l6[c[6]].dup(), l7[c[7]].dup(), l8[c[8]].dup(), l9[c[9]].dup(), l10[c[10]].dup(), l11[c[11]].dup(), l12[c[12]].dup())).collect::<Vec<Self>>()
    }
    fn into_v(self) -> Option<Value> { Some(self.into()) }
    fn dup(&self) -> Self {
        Self(self.0.dup(), self.1.dup(), self.2.dup(), self.3.dup(), self.4.dup(), self.5.dup(), self.6.dup(), self.7.dup(), self.8.dup(), self.9.dup(), self.10.dup(), self.11.dup(), self.12.dup())
    }
    fn dfmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        std::fmt::Debug::fmt(self, f)
    }
}

#[allow(dead_code)]
#[derive(Reflect, Clone, Debug)]
pub struct Kd0 {
    pub a: (),
    pub b: Option<u8>,
    pub c: (u8,),
}
#[allow(unused_variables, unused_mut, clippy::all)]
impl Modeled for Kd0 {
    fn t() -> T {
        T::Struct { name: std::any::type_name::<Self>(), fields: vec![FieldT { name: Some("a"), ty: <() as Modeled>::t, with: None, meta: vec![], docs: vec![] }, FieldT { name: Some("b"), ty: <Option<u8> as Modeled>::t, with: None, meta: vec![], docs: vec![] }, FieldT { name: Some("c"), ty: <(u8,) as Modeled>::t, with: None, meta: vec![], docs: vec![] }], meta: vec![], docs: vec![] }
    }
    fn m(&self) -> M {
        M::Struct(vec![("a".to_owned(), self.a.m()), ("b".to_owned(), self.b.m()), ("c".to_owned(), self.c.m())])
    }
    fn hidden(&self) -> Vec<u8> {
        vec![]
    }
    fn vals(n: usize, d: usize) -> Vec<Self> {
        let l0 = <() as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); let l1 = <Option<u8> as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); let l2 = <(u8,) as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); combos(&[l0.len(), l1.len(), l2.len()], n.max(1)).into_iter().map(|c: Vec<usize>| Self { a: l0[c[0]].dup(), b: l1[c[1]].dup(), c: l2[c[2]].dup() }).collect::<Vec<Self>>()
    }
    fn into_v(self) -> Option<Value> { Some(self.into()) }
    fn dup(&self) -> Self {
        Self { a: self.a.dup(), b: self.b.dup(), c: self.c.dup() }
    }
    fn dfmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        std::fmt::Debug::fmt(self, f)
    }
}

#[allow(dead_code)]
#[derive(Reflect, Clone, Debug)]
pub struct KdT0(
    pub (),
    pub (u8,),
    pub Option<u8>,
);
#[allow(unused_variables, unused_mut, clippy::all)]
impl Modeled for KdT0 {
    fn t() -> T {
        T::TupleStruct { name: std::any::type_name::<Self>(), fields: vec![FieldT { name: None, ty: <() as Modeled>::t, with: None, meta: vec![], docs: vec![] }, FieldT { name: None, ty: <(u8,) as Modeled>::t, with: None, meta: vec![], docs: vec![] }, FieldT { name: None, ty: <Option<u8> as Modeled>::t, with: None, meta: vec![], docs: vec![] }], meta: vec![], docs: vec![] }
    }
    fn m(&self) -> M {
        M::TupleStruct(vec![self.0.m(), self.1.m(), self.2.m()])
    }
    fn hidden(&self) -> Vec<u8> {
        vec![]
    }
    fn vals(n: usize, d: usize) -> Vec<Self> {
        let l0 = <() as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); let l1 = <(u8,) as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); let l2 = <Option<u8> as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); combos(&[l0.len(), l1.len(), l2.len()], n.max(1)).into_iter().map(|c: Vec<usize>| Self(l0[c[0]].dup(), l1[c[1]].dup(), l2[c[2]].dup())).collect::<Vec<Self>>()
    }
    fn into_v(self) -> Option<Value> { Some(self.into()) }
    fn dup(&self) -> Self {
        Self(self.0.dup(), self.1.dup(), self.2.dup())
    }
    fn dfmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        std::fmt::Debug::fmt(self, f)
    }
}

#[allow(dead_code)]
#[derive(Reflect, Clone, Debug)]
pub enum KdE0 {
    A(
        Option<u8>,
        (),
    ),
    B {
        x: (u8,),
        y: u8,
        z: (),
    },
    C(
        (),
    ),
    D {
        x: (),
    },
}
#[allow(unused_variables, unused_mut, clippy::all)]
impl Modeled for KdE0 {
    fn t() -> T {
        T::Enum { name: std::any::type_name::<Self>(), variants: vec![VariantT { name: "A", kind: VK::Tuple, fields: vec![FieldT { name: None, ty: <Option<u8> as Modeled>::t, with: None, meta: vec![], docs: vec![] }, FieldT { name: None, ty: <() as Modeled>::t, with: None, meta: vec![], docs: vec![] }], meta: vec![], docs: vec![] }, VariantT { name: "B", kind: VK::Struct, fields: vec![FieldT { name: Some("x"), ty: <(u8,) as Modeled>::t, with: None, meta: vec![], docs: vec![] }, FieldT { name: Some("y"), ty: <u8 as Modeled>::t, with: None, meta: vec![], docs: vec![] }, FieldT { name: Some("z"), ty: <() as Modeled>::t, with: None, meta: vec![], docs: vec![] }], meta: vec![], docs: vec![] }, VariantT { name: "C", kind: VK::Tuple, fields: vec![FieldT { name: None, ty: <() as Modeled>::t, with: None, meta: vec![], docs: vec![] }], meta: vec![], docs: vec![] }, VariantT { name: "D", kind: VK::Struct, fields: vec![FieldT { name: Some("x"), ty: <() as Modeled>::t, with: None, meta: vec![], docs: vec![] }], meta: vec![], docs: vec![] }], skipped: vec![], meta: vec![], docs: vec![] }
    }
    fn m(&self) -> M {
        match self {
            Self::A(x0, x1) => M::Enum("A".into(), VK::Tuple, vec![(None, x0.m()), (None, x1.m())]),
            Self::B { x: x0, y: x1, z: x2 } => M::Enum("B".into(), VK::Struct, vec![(Some("x".into()), x0.m()), (Some("y".into()), x1.m()), (Some("z".into()), x2.m())]),
            Self::C(x0) => M::Enum("C".into(), VK::Tuple, vec![(None, x0.m())]),
            Self::D { x: x0 } => M::Enum("D".into(), VK::Struct, vec![(Some("x".into()), x0.m())]),
        }
    }
    fn hidden(&self) -> Vec<u8> {
        match self {
            _ => vec![],
        }
    }
    fn vals(n: usize, d: usize) -> Vec<Self> {
        let mut per: Vec<Vec<Self>> = vec![];
        per.push({ let l0 = <Option<u8> as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); let l1 = <() as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); combos(&[l0.len(), l1.len()], n.max(1)).into_iter().map(|c: Vec<usize>| Self::A(l0[c[0]].dup(), l1[c[1]].dup())).collect::<Vec<Self>>() });
        per.push({ let l0 = <(u8,) as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); let l1 = <u8 as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); let l2 = <() as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); combos(&[l0.len(), l1.len(), l2.len()], n.max(1)).into_iter().map(|c: Vec<usize>| Self::B { x: l0[c[0]].dup(), y: l1[c[1]].dup(), z: l2[c[2]].dup() }).collect::<Vec<Self>>() });
        per.push({ let l0 = <() as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); combos(&[l0.len()], n.max(1)).into_iter().map(|c: Vec<usize>| Self::C(l0[c[0]].dup())).collect::<Vec<Self>>() });
        per.push({ let l0 = <() as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); combos(&[l0.len()], n.max(1)).into_iter().map(|c: Vec<usize>| Self::D { x: l0[c[0]].dup() }).collect::<Vec<Self>>() });
        interleave(per, n)
    }
    fn into_v(self) -> Option<Value> { Some(self.into()) }
    fn dup(&self) -> Self {
        match self {
            Self::A(x0, x1) => Self::A(x0.dup(), x1.dup()),
            Self::B { x: x0, y: x1, z: x2 } => Self::B { x: x0.dup(), y: x1.dup(), z: x2.dup() },
            Self::C(x0) => Self::C(x0.dup()),
            Self::D { x: x0 } => Self::D { x: x0.dup() },
        }
    }
    fn dfmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        std::fmt::Debug::fmt(self, f)
    }
}

#[allow(dead_code)]
#[derive(Reflect, Clone, Debug)]
pub struct Kd1 {
    pub a: u8,
    pub b: Vec<u8>,
    pub c: S1m0,
}
#[allow(unused_variables, unused_mut, clippy::all)]
impl Modeled for Kd1 {
    fn t() -> T {
        T::Struct { name: std::any::type_name::<Self>(), fields: vec![FieldT { name: Some("a"), ty: <u8 as Modeled>::t, with: None, meta: vec![], docs: vec![] }, FieldT { name: Some("b"), ty: <Vec<u8> as Modeled>::t, with: None, meta: vec![], docs: vec![] }, FieldT { name: Some("c"), ty: <S1m0 as Modeled>::t, with: None, meta: vec![], docs: vec![] }], meta: vec![], docs: vec![] }
    }
    fn m(&self) -> M {
        M::Struct(vec![("a".to_owned(), self.a.m()), ("b".to_owned(), self.b.m()), ("c".to_owned(), self.c.m())])
    }
    fn hidden(&self) -> Vec<u8> {
        vec![]
    }
    fn vals(n: usize, d: usize) -> Vec<Self> {
        let l0 = <u8 as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); let l1 = <Vec<u8> as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); let l2 = <S1m0 as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); combos(&[l0.len(), l1.len(), l2.len()], n.max(1)).into_iter().map(|c: Vec<usize>| Self { a: l0[c[0]].dup(), b: l1[c[1]].dup(), c: l2[c[2]].dup() }).collect::<Vec<Self>>()
    }
    fn into_v(self) -> Option<Value> { Some(self.into()) }
    fn dup(&self) -> Self {
        Self { a: self.a.dup(), b: self.b.dup(), c: self.c.dup() }
    }
    fn dfmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        std::fmt::Debug::fmt(self, f)
    }
}

#[allow(dead_code)]
#[derive(Reflect, Clone, Debug)]
pub struct KdT1(
    pub u8,
    pub S1m0,
    pub Vec<u8>,
);
#[allow(unused_variables, unused_mut, clippy::all)]
impl Modeled for KdT1 {
    fn t() -> T {
        T::TupleStruct { name: std::any::type_name::<Self>(), fields: vec![FieldT { name: None, ty: <u8 as Modeled>::t, with: None, meta: vec![], docs: vec![] }, FieldT { name: None, ty: <S1m0 as Modeled>::t, with: None, meta: vec![], docs: vec![] }, FieldT { name: None, ty: <Vec<u8> as Modeled>::t, with: None, meta: vec![], docs: vec![] }], meta: vec![], docs: vec![] }
    }
    fn m(&self) -> M {
        M::TupleStruct(vec![self.0.m(), self.1.m(), self.2.m()])
    }
    fn hidden(&self) -> Vec<u8> {
        vec![]
    }
    fn vals(n: usize, d: usize) -> Vec<Self> {
        let l0 = <u8 as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); let l1 = <S1m0 as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); let l2 = <Vec<u8> as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); combos(&[l0.len(), l1.len(), l2.len()], n.max(1)).into_iter().map(|c: Vec<usize>| Self(l0[c[0]].dup(), l1[c[1]].dup(), l2[c[2]].dup())).collect::<Vec<Self>>()
    }
    fn into_v(self) -> Option<Value> { Some(self.into()) }
    fn dup(&self) -> Self {
        Self(self.0.dup(), self.1.dup(), self.2.dup())
    }
    fn dfmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        std::fmt::Debug::fmt(self, f)
    }
}

#[allow(dead_code)]
#[derive(Reflect, Clone, Debug)]
pub enum KdE1 {
    A(
        Vec<u8>,
        u8,
    ),
    B {
        x: S1m0,
        y: u8,
        z: u8,
    },
    C(
        u8,
    ),
    D {
        x: u8,
    },
}
#[allow(unused_variables, unused_mut, clippy::all)]
impl Modeled for KdE1 {
    fn t() -> T {
        T::Enum { name: std::any::type_name::<Self>(), variants: vec![VariantT { name: "A", kind: VK::Tuple, fields: vec![FieldT { name: None, ty: <Vec<u8> as Modeled>::t, with: None, meta: vec![], docs: vec![] }, FieldT { name: None, ty: <u8 as Modeled>::t, with: None, meta: vec![], docs: vec![] }], meta: vec![], docs: vec![] }, VariantT { name: "B", kind: VK::Struct, fields: vec![FieldT { name: Some("x"), ty: <S1m0 as Modeled>::t, with: None, meta: vec![], docs: vec![] }, FieldT { name: Some("y"), ty: <u8 as Modeled>::t, with: None, meta: vec![], docs: vec![] }, FieldT { name: Some("z"), ty: <u8 as Modeled>::t, with: None, meta: vec![], docs: vec![] }], meta: vec![], docs: vec![] }, VariantT { name: "C", kind: VK::Tuple, fields: vec![FieldT { name: None, ty: <u8 as Modeled>::t, with: None, meta: vec![], docs: vec![] }], meta: vec![], docs: vec![] }, VariantT { name: "D", kind: VK::Struct, fields: vec![FieldT { name: Some("x"), ty: <u8 as Modeled>::t, with: None, meta: vec![], docs: vec![] }], meta: vec![], docs: vec![] }], skipped: vec![], meta: vec![], docs: vec![] }
    }
    fn m(&self) -> M {
        match self {
            Self::A(x0, x1) => M::Enum("A".into(), VK::Tuple, vec![(None, x0.m()), (None, x1.m())]),
            Self::B { x: x0, y: x1, z: x2 } => M::Enum("B".into(), VK::Struct, vec![(Some("x".into()), x0.m()), (Some("y".into()), x1.m()), (Some("z".into()), x2.m())]),
            Self::C(x0) => M::Enum("C".into(), VK::Tuple, vec![(None, x0.m())]),
            Self::D { x: x0 } => M::Enum("D".into(), VK::Struct, vec![(Some("x".into()), x0.m())]),
        }
    }
    fn hidden(&self) -> Vec<u8> {
        match self {
            _ => vec![],
        }
    }
    fn vals(n: usize, d: usize) -> Vec<Self> {
        let mut per: Vec<Vec<Self>> = vec![];
        per.push({ let l0 = <Vec<u8> as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); let l1 = <u8 as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); combos(&[l0.len(), l1.len()], n.max(1)).into_iter().map(|c: Vec<usize>| Self::A(l0[c[0]].dup(), l1[c[1]].dup())).collect::<Vec<Self>>() });
        per.push({ let l0 = <S1m0 as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); let l1 = <u8 as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); let l2 = <u8 as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); combos(&[l0.len(), l1.len(), l2.len()], n.max(1)).into_iter().map(|c: Vec<usize>| Self::B { x: l0[c[0]].dup(), y: l1[c[1]].dup(), z: l2[c[2]].dup() }).collect::<Vec<Self>>() });
        per.push({ let l0 = <u8 as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); combos(&[l0.len()], n.max(1)).into_iter().map(|c: Vec<usize>| Self::C(l0[c[0]].dup())).collect::<Vec<Self>>() });
        per.push({ let l0 = <u8 as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); combos(&[l0.len()], n.max(1)).into_iter().map(|c: Vec<usize>| Self::D { x: l0[c[0]].dup() }).collect::<Vec<Self>>() });
        interleave(per, n)
    }
    fn into_v(self) -> Option<Value> { Some(self.into()) }
    fn dup(&self) -> Self {
        match self {
            Self::A(x0, x1) => Self::A(x0.dup(), x1.dup()),
            Self::B { x: x0, y: x1, z: x2 } => Self::B { x: x0.dup(), y: x1.dup(), z: x2.dup() },
            Self::C(x0) => Self::C(x0.dup()),
            Self::D { x: x0 } => Self::D { x: x0.dup() },
        }
    }
    fn dfmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        std::fmt::Debug::fmt(self, f)
    }
}

#[allow(dead_code)]
#[derive(Reflect, Clone, Debug)]
pub struct Kd2 {
    pub a: Unit,
    pub b: [u8; 2],
    pub c: T1m0,
}
#[allow(unused_variables, unused_mut, clippy::all)]
impl Modeled for Kd2 {
    fn t() -> T {
        T::Struct { name: std::any::type_name::<Self>(), fields: vec![FieldT { name: Some("a"), ty: <Unit as Modeled>::t, with: None, meta: vec![], docs: vec![] }, FieldT { name: Some("b"), ty: <[u8; 2] as Modeled>::t, with: None, meta: vec![], docs: vec![] }, FieldT { name: Some("c"), ty: <T1m0 as Modeled>::t, with: None, meta: vec![], docs: vec![] }], meta: vec![], docs: vec![] }
    }
    fn m(&self) -> M {
        M::Struct(vec![("a".to_owned(), self.a.m()), ("b".to_owned(), self.b.m()), ("c".to_owned(), self.c.m())])
    }
    fn hidden(&self) -> Vec<u8> {
        vec![]
    }
    fn vals(n: usize, d: usize) -> Vec<Self> {
        let l0 = <Unit as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); let l1 = <[u8; 2] as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); let l2 = <T1m0 as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); combos(&[l0.len(), l1.len(), l2.len()], n.max(1)).into_iter().map(|c: Vec<usize>| Self { a: l0[c[0]].dup(), b: l1[c[1]].dup(), c: l2[c[2]].dup() }).collect::<Vec<Self>>()
    }
    fn into_v(self) -> Option<Value> { Some(self.into()) }
    fn dup(&self) -> Self {
        Self { a: self.a.dup(), b: self.b.dup(), c: self.c.dup() }
    }
    fn dfmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        std::fmt::Debug::fmt(self, f)
    }
}

#[allow(dead_code)]
#[derive(Reflect, Clone, Debug)]
pub struct KdT2(
    pub Unit,
    pub T1m0,
    pub [u8; 2],
);
#[allow(unused_variables, unused_mut, clippy::all)]
impl Modeled for KdT2 {
    fn t() -> T {
        T::TupleStruct { name: std::any::type_name::<Self>(), fields: vec![FieldT { name: None, ty: <Unit as Modeled>::t, with: None, meta: vec![], docs: vec![] }, FieldT { name: None, ty: <T1m0 as Modeled>::t, with: None, meta: vec![], docs: vec![] }, FieldT { name: None, ty: <[u8; 2] as Modeled>::t, with: None, meta: vec![], docs: vec![] }], meta: vec![], docs: vec![] }
    }
    fn m(&self) -> M {
        M::TupleStruct(vec![self.0.m(), self.1.m(), self.2.m()])
    }
    fn hidden(&self) -> Vec<u8> {
        vec![]
    }
    fn vals(n: usize, d: usize) -> Vec<Self> {
        let l0 = <Unit as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); let l1 = <T1m0 as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); let l2 = <[u8; 2] as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); combos(&[l0.len(), l1.len(), l2.len()], n.max(1)).into_iter().map(|c: Vec<usize>| Self(l0[c[0]].dup(), l1[c[1]].dup(), l2[c[2]].dup())).collect::<Vec<Self>>()
    }
    fn into_v(self) -> Option<Value> { Some(self.into()) }
    fn dup(&self) -> Self {
        Self(self.0.dup(), self.1.dup(), self.2.dup())
    }
    fn dfmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        std::fmt::Debug::fmt(self, f)
    }
}

#[allow(dead_code)]
#[derive(Reflect, Clone, Debug)]
pub enum KdE2 {
    A(
        [u8; 2],
        Unit,
    ),
    B {
        x: T1m0,
        y: u8,
        z: Unit,
    },
    C(
        Unit,
    ),
    D {
        x: Unit,
    },
}
#[allow(unused_variables, unused_mut, clippy::all)]
impl Modeled for KdE2 {
    fn t() -> T {
        T::Enum { name: std::any::type_name::<Self>(), variants: vec![VariantT { name: "A", kind: VK::Tuple, fields: vec![FieldT { name: None, ty: <[u8; 2] as Modeled>::t, with: None, meta: vec![], docs: vec![] }, FieldT { name: None, ty: <Unit as Modeled>::t, with: None, meta: vec![], docs: vec![] }], meta: vec![], docs: vec![] }, VariantT { name: "B", kind: VK::Struct, fields: vec![FieldT { name: Some("x"), ty: <T1m0 as Modeled>::t, with: None, meta: vec![], docs: vec![] }, FieldT { name: Some("y"), ty: <u8 as Modeled>::t, with: None, meta: vec![], docs: vec![] }, FieldT { name: Some("z"), ty: <Unit as Modeled>::t, with: None, meta: vec![], docs: vec![] }], meta: vec![], docs: vec![] }, VariantT { name: "C", kind: VK::Tuple, fields: vec![FieldT { name: None, ty: <Unit as Modeled>::t, with: None, meta: vec![], docs: vec![] }], meta: vec![], docs: vec![] }, VariantT { name: "D", kind: VK::Struct, fields: vec![FieldT { name: Some("x"), ty: <Unit as Modeled>::t, with: None, meta: vec![], docs: vec![] }], meta: vec![], docs: vec![] }], skipped: vec![], meta: vec![], docs: vec![] }
    }
    fn m(&self) -> M {
        match self {
            Self::A(x0, x1) => M::Enum("A".into(), VK::Tuple, vec![(None, x0.m()), (None, x1.m())]),
            Self::B { x: x0, y: x1, z: x2 } => M::Enum("B".into(), VK::Struct, vec![(Some("x".into()), x0.m()), (Some("y".into()), x1.m()), (Some("z".into()), x2.m())]),
            Self::C(x0) => M::Enum("C".into(), VK::Tuple, vec![(None, x0.m())]),
            Self::D { x: x0 } => M::Enum("D".into(), VK::Struct, vec![(Some("x".into()), x0.m())]),
        }
    }
    fn hidden(&self) -> Vec<u8> {
        match self {
            _ => vec![],
        }
    }
    fn vals(n: usize, d: usize) -> Vec<Self> {
        let mut per: Vec<Vec<Self>> = vec![];
        per.push({ let l0 = <[u8; 2] as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); let l1 = <Unit as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); combos(&[l0.len(), l1.len()], n.max(1)).into_iter().map(|c: Vec<usize>| Self::A(l0[c[0]].dup(), l1[c[1]].dup())).collect::<Vec<Self>>() });
        per.push({ let l0 = <T1m0 as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); let l1 = <u8 as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); let l2 = <Unit as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); combos(&[l0.len(), l1.len(), l2.len()], n.max(1)).into_iter().map(|c: Vec<usize>| Self::B { x: l0[c[0]].dup(), y: l1[c[1]].dup(), z: l2[c[2]].dup() }).collect::<Vec<Self>>() });
        per.push({ let l0 = <Unit as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); combos(&[l0.len()], n.max(1)).into_iter().map(|c: Vec<usize>| Self::C(l0[c[0]].dup())).collect::<Vec<Self>>() });
        per.push({ let l0 = <Unit as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); combos(&[l0.len()], n.max(1)).into_iter().map(|c: Vec<usize>| Self::D { x: l0[c[0]].dup() }).collect::<Vec<Self>>() });
        interleave(per, n)
    }
    fn into_v(self) -> Option<Value> { Some(self.into()) }
    fn dup(&self) -> Self {
        match self {
            Self::A(x0, x1) => Self::A(x0.dup(), x1.dup()),
            Self::B { x: x0, y: x1, z: x2 } => Self::B { x: x0.dup(), y: x1.dup(), z: x2.dup() },
            Self::C(x0) => Self::C(x0.dup()),
            Self::D { x: x0 } => Self::D { x: x0.dup() },
        }
    }
    fn dfmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        std::fmt::Debug::fmt(self, f)
    }
}

#[allow(dead_code)]
#[derive(Reflect, Clone, Debug)]
pub struct Kd3 {
    pub a: Option<u8>,
    pub b: BTreeMap<u8, u8>,
    pub c: Units,
}
#[allow(unused_variables, unused_mut, clippy::all)]
impl Modeled for Kd3 {
    fn t() -> T {
        T::Struct { name: std::any::type_name::<Self>(), fields: vec![FieldT { name: Some("a"), ty: <Option<u8> as Modeled>::t, with: None, meta: vec![], docs: vec![] }, FieldT { name: Some("b"), ty: <BTreeMap<u8, u8> as Modeled>::t, with: None, meta: vec![], docs: vec![] }, FieldT { name: Some("c"), ty: <Units as Modeled>::t, with: None, meta: vec![], docs: vec![] }], meta: vec![], docs: vec![] }
    }
    fn m(&self) -> M {
        M::Struct(vec![("a".to_owned(), self.a.m()), ("b".to_owned(), self.b.m()), ("c".to_owned(), self.c.m())])
    }
    fn hidden(&self) -> Vec<u8> {
        vec![]
    }
    fn vals(n: usize, d: usize) -> Vec<Self> {
        let l0 = <Option<u8> as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); let l1 = <BTreeMap<u8, u8> as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); let l2 = <Units as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); combos(&[l0.len(), l1.len(), l2.len()], n.max(1)).into_iter().map(|c: Vec<usize>| Self { a: l0[c[0]].dup(), b: l1[c[1]].dup(), c: l2[c[2]].dup() }).collect::<Vec<Self>>()
    }
    fn into_v(self) -> Option<Value> { Some(self.into()) }
    fn dup(&self) -> Self {
        Self { a: self.a.dup(), b: self.b.dup(), c: self.c.dup() }
    }
    fn dfmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        std::fmt::Debug::fmt(self, f)
    }
}

#[allow(dead_code)]
#[derive(Reflect, Clone, Debug)]
pub struct KdT3(
    pub Option<u8>,
    pub Units,
    pub BTreeMap<u8, u8>,
);
#[allow(unused_variables, unused_mut, clippy::all)]
impl Modeled for KdT3 {
    fn t() -> T {
        T::TupleStruct { name: std::any::type_name::<Self>(), fields: vec![FieldT { name: None, ty: <Option<u8> as Modeled>::t, with: None, meta: vec![], docs: vec![] }, FieldT { name: None, ty: <Units as Modeled>::t, with: None, meta: vec![], docs: vec![] }, FieldT { name: None, ty: <BTreeMap<u8, u8> as Modeled>::t, with: None, meta: vec![], docs: vec![] }], meta: vec![], docs: vec![] }
    }
    fn m(&self) -> M {
        M::TupleStruct(vec![self.0.m(), self.1.m(), self.2.m()])
    }
    fn hidden(&self) -> Vec<u8> {
        vec![]
    }
    fn vals(n: usize, d: usize) -> Vec<Self> {
        let l0 = <Option<u8> as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); let l1 = <Units as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); let l2 = <BTreeMap<u8, u8> as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); combos(&[l0.len(), l1.len(), l2.len()], n.max(1)).into_iter().map(|c: Vec<usize>| Self(l0[c[0]].dup(), l1[c[1]].dup(), l2[c[2]].dup())).collect::<Vec<Self>>()
    }
    fn into_v(self) -> Option<Value> { Some(self.into()) }
    fn dup(&self) -> Self {
        Self(self.0.dup(), self.1.dup(), self.2.dup())
    }
    fn dfmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        std::fmt::Debug::fmt(self, f)
    }
}

#[allow(dead_code)]
#[derive(Reflect, Clone, Debug)]
pub enum KdE3 {
    A(
        BTreeMap<u8, u8>,
        Option<u8>,
    ),
    B {
        x: Units,
        y: u8,
        z: Option<u8>,
    },
    C(
        Option<u8>,
    ),
    D {
        x: Option<u8>,
    },
}
#[allow(unused_variables, unused_mut, clippy::all)]
impl Modeled for KdE3 {
    fn t() -> T {
        T::Enum { name: std::any::type_name::<Self>(), variants: vec![VariantT { name: "A", kind: VK::Tuple, fields: vec![FieldT { name: None, ty: <BTreeMap<u8, u8> as Modeled>::t, with: None, meta: vec![], docs: vec![] }, FieldT { name: None, ty: <Option<u8> as Modeled>::t, with: None, meta: vec![], docs: vec![] }], meta: vec![], docs: vec![] }, VariantT { name: "B", kind: VK::Struct, fields: vec![FieldT { name: Some("x"), ty: <Units as Modeled>::t, with: None, meta: vec![], docs: vec![] }, FieldT { name: Some("y"), ty: <u8 as Modeled>::t, with: None, meta: vec![], docs: vec![] }, FieldT { name: Some("z"), ty: <Option<u8> as Modeled>::t, with: None, meta: vec![], docs: vec![] }], meta: vec![], docs: vec![] }, VariantT { name: "C", kind: VK::Tuple, fields: vec![FieldT { name: None, ty: <Option<u8> as Modeled>::t, with: None, meta: vec![], docs: vec![] }], meta: vec![], docs: vec![] }, VariantT { name: "D", kind: VK::Struct, fields: vec![FieldT { name: Some("x"), ty: <Option<u8> as Modeled>::t, with: None, meta: vec![], docs: vec![] }], meta: vec![], docs: vec![] }], skipped: vec![], meta: vec![], docs: vec![] }
    }
    fn m(&self) -> M {
        match self {
            Self::A(x0, x1) => M::Enum("A".into(), VK::Tuple, vec![(None, x0.m()), (None, x1.m())]),
            Self::B { x: x0, y: x1, z: x2 } => M::Enum("B".into(), VK::Struct, vec![(Some("x".into()), x0.m()), (Some("y".into()), x1.m()), (Some("z".into()), x2.m())]),
            Self::C(x0) => M::Enum("C".into(), VK::Tuple, vec![(None, x0.m())]),
            Self::D { x: x0 } => M::Enum("D".into(), VK::Struct, vec![(Some("x".into()), x0.m())]),
        }
    }
    fn hidden(&self) -> Vec<u8> {
        match self {
            _ => vec![],
        }
    }
    fn vals(n: usize, d: usize) -> Vec<Self> {
        let mut per: Vec<Vec<Self>> = vec![];
        per.push({ let l0 = <BTreeMap<u8, u8> as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); let l1 = <Option<u8> as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); combos(&[l0.len(), l1.len()], n.max(1)).into_iter().map(|c: Vec<usize>| Self::A(l0[c[0]].dup(), l1[c[1]].dup())).collect::<Vec<Self>>() });
        per.push({ let l0 = <Units as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); let l1 = <u8 as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); let l2 = <Option<u8> as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); combos(&[l0.len(), l1.len(), l2.len()], n.max(1)).into_iter().map(|c: Vec<usize>| Self::B { x: l0[c[0]].dup(), y: l1[c[1]].dup(), z: l2[c[2]].dup() }).collect::<Vec<Self>>() });
        per.push({ let l0 = <Option<u8> as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); combos(&[l0.len()], n.max(1)).into_iter().map(|c: Vec<usize>| Self::C(l0[c[0]].dup())).collect::<Vec<Self>>() });
        per.push({ let l0 = <Option<u8> as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); combos(&[l0.len()], n.max(1)).into_iter().map(|c: Vec<usize>| Self::D { x: l0[c[0]].dup() }).collect::<Vec<Self>>() });
        interleave(per, n)
    }
    fn into_v(self) -> Option<Value> { Some(self.into()) }
    fn dup(&self) -> Self {
        match self {
            Self::A(x0, x1) => Self::A(x0.dup(), x1.dup()),
            Self::B { x: x0, y: x1, z: x2 } => Self::B { x: x0.dup(), y: x1.dup(), z: x2.dup() },
            Self::C(x0) => Self::C(x0.dup()),
            Self::D { x: x0 } => Self::D { x: x0.dup() },
        }
    }
    fn dfmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        std::fmt::Debug::fmt(self, f)
    }
}

#[allow(dead_code)]
#[derive(Reflect, Clone, Debug)]
pub struct Kd4 {
    pub a: Vec<u8>,
    pub b: (u8,),
    pub c: OpA,
}
#[allow(unused_variables, unused_mut, clippy::all)]
impl Modeled for Kd4 {
    fn t() -> T {
        T::Struct { name: std::any::type_name::<Self>(), fields: vec![FieldT { name: Some("a"), ty: <Vec<u8> as Modeled>::t, with: None, meta: vec![], docs: vec![] }, FieldT { name: Some("b"), ty: <(u8,) as Modeled>::t, with: None, meta: vec![], docs: vec![] }, FieldT { name: Some("c"), ty: <OpA as Modeled>::t, with: None, meta: vec![], docs: vec![] }], meta: vec![], docs: vec![] }
    }
    fn m(&self) -> M {
        M::Struct(vec![("a".to_owned(), self.a.m()), ("b".to_owned(), self.b.m()), ("c".to_owned(), self.c.m())])
    }
    fn hidden(&self) -> Vec<u8> {
        vec![]
    }
    fn vals(n: usize, d: usize) -> Vec<Self> {
        let l0 = <Vec<u8> as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); let l1 = <(u8,) as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); let l2 = <OpA as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); combos(&[l0.len(), l1.len(), l2.len()], n.max(1)).into_iter().map(|c: Vec<usize>| Self { a: l0[c[0]].dup(), b: l1[c[1]].dup(), c: l2[c[2]].dup() }).collect::<Vec<Self>>()
    }
    fn into_v(self) -> Option<Value> { Some(self.into()) }
    fn dup(&self) -> Self {
        Self { a: self.a.dup(), b: self.b.dup(), c: self.c.dup() }
    }
    fn dfmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        std::fmt::Debug::fmt(self, f)
    }
}

#[allow(dead_code)]
#[derive(Reflect, Clone, Debug)]
pub struct KdT4(
    pub Vec<u8>,
    pub OpA,
    pub (u8,),
);
#[allow(unused_variables, unused_mut, clippy::all)]
impl Modeled for KdT4 {
    fn t() -> T {
        T::TupleStruct { name: std::any::type_name::<Self>(), fields: vec![FieldT { name: None, ty: <Vec<u8> as Modeled>::t, with: None, meta: vec![], docs: vec![] }, FieldT { name: None, ty: <OpA as Modeled>::t, with: None, meta: vec![], docs: vec![] }, FieldT { name: None, ty: <(u8,) as Modeled>::t, with: None, meta: vec![], docs: vec![] }], meta: vec![], docs: vec![] }
    }
    fn m(&self) -> M {
        M::TupleStruct(vec![self.0.m(), self.1.m(), self.2.m()])
    }
    fn hidden(&self) -> Vec<u8> {
        vec![]
    }
    fn vals(n: usize, d: usize) -> Vec<Self> {
        let l0 = <Vec<u8> as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); let l1 = <OpA as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); let l2 = <(u8,) as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); combos(&[l0.len(), l1.len(), l2.len()], n.max(1)).into_iter().map(|c: Vec<usize>| Self(l0[c[0]].dup(), l1[c[1]].dup(), l2[c[2]].dup())).collect::<Vec<Self>>()
    }
    fn into_v(self) -> Option<Value> { Some(self.into()) }
    fn dup(&self) -> Self {
        Self(self.0.dup(), self.1.dup(), self.2.dup())
    }
    fn dfmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        std::fmt::Debug::fmt(self, f)
    }
}

#[allow(dead_code)]
#[derive(Reflect, Clone, Debug)]
pub enum KdE4 {
    A(
        (u8,),
        Vec<u8>,
    ),
    B {
        x: OpA,
        y: u8,
        z: Vec<u8>,
    },
    C(
        Vec<u8>,
    ),
    D {
        x: Vec<u8>,
    },
}
#[allow(unused_variables, unused_mut, clippy::all)]
impl Modeled for KdE4 {
    fn t() -> T {
        T::Enum { name: std::any::type_name::<Self>(), variants: vec![VariantT { name: "A", kind: VK::Tuple, fields: vec![FieldT { name: None, ty: <(u8,) as Modeled>::t, with: None, meta: vec![], docs: vec![] }, FieldT { name: None, ty: <Vec<u8> as Modeled>::t, with: None, meta: vec![], docs: vec![] }], meta: vec![], docs: vec![] }, VariantT { name: "B", kind: VK::Struct, fields: vec![FieldT { name: Some("x"), ty: <OpA as Modeled>::t, with: None, meta: vec![], docs: vec![] }, FieldT { name: Some("y"), ty: <u8 as Modeled>::t, with: None, meta: vec![], docs: vec![] }, FieldT { name: Some("z"), ty: <Vec<u8> as Modeled>::t, with: None, meta: vec![], docs: vec![] }], meta: vec![], docs: vec![] }, VariantT { name: "C", kind: VK::Tuple, fields: vec![FieldT { name: None, ty: <Vec<u8> as Modeled>::t, with: None, meta: vec![], docs: vec![] }], meta: vec![], docs: vec![] }, VariantT { name: "D", kind: VK::Struct, fields: vec![FieldT { name: Some("x"), ty: <Vec<u8> as Modeled>::t, with: None, meta: vec![], docs: vec![] }], meta: vec![], docs: vec![] }], skipped: vec![], meta: vec![], docs: vec![] }
    }
    fn m(&self) -> M {
        match self {
            Self::A(x0, x1) => M::Enum("A".into(), VK::Tuple, vec![(None, x0.m()), (None, x1.m())]),
            Self::B { x: x0, y: x1, z: x2 } => M::Enum("B".into(), VK::Struct, vec![(Some("x".into()), x0.m()), (Some("y".into()), x1.m()), (Some("z".into()), x2.m())]),
            Self::C(x0) => M::Enum("C".into(), VK::Tuple, vec![(None, x0.m())]),
            Self::D { x: x0 } => M::Enum("D".into(), VK::Struct, vec![(Some("x".into()), x0.m())]),
        }
    }
    fn hidden(&self) -> Vec<u8> {
        match self {
            _ => vec![],
        }
    }
    fn vals(n: usize, d: usize) -> Vec<Self> {
        let mut per: Vec<Vec<Self>> = vec![];
        per.push({ let l0 = <(u8,) as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); let l1 = <Vec<u8> as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); combos(&[l0.len(), l1.len()], n.max(1)).into_iter().map(|c: Vec<usize>| Self::A(l0[c[0]].dup(), l1[c[1]].dup())).collect::<Vec<Self>>() });
        per.push({ let l0 = <OpA as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); let l1 = <u8 as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); let l2 = <Vec<u8> as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); combos(&[l0.len(), l1.len(), l2.len()], n.max(1)).into_iter().map(|c: Vec<usize>| Self::B { x: l0[c[0]].dup(), y: l1[c[1]].dup(), z: l2[c[2]].dup() }).collect::<Vec<Self>>() });
        per.push({ let l0 = <Vec<u8> as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); combos(&[l0.len()], n.max(1)).into_iter().map(|c: Vec<usize>| Self::C(l0[c[0]].dup())).collect::<Vec<Self>>() });
        per.push({ let l0 = <Vec<u8> as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); combos(&[l0.len()], n.max(1)).into_iter().map(|c: Vec<usize>| Self::D { x: l0[c[0]].dup() }).collect::<Vec<Self>>() });
        interleave(per, n)
    }
    fn into_v(self) -> Option<Value> { Some(self.into()) }
    fn dup(&self) -> Self {
        match self {
            Self::A(x0, x1) => Self::A(x0.dup(), x1.dup()),
            Self::B { x: x0, y: x1, z: x2 } => Self::B { x: x0.dup(), y: x1.dup(), z: x2.dup() },
            Self::C(x0) => Self::C(x0.dup()),
            Self::D { x: x0 } => Self::D { x: x0.dup() },
        }
    }
    fn dfmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        std::fmt::Debug::fmt(self, f)
    }
}

#[allow(dead_code)]
#[derive(Reflect, Clone, Debug)]
pub struct Kd5 {
    pub a: [u8; 2],
    pub b: S1m0,
    pub c: Value,
}
#[allow(unused_variables, unused_mut, clippy::all)]
impl Modeled for Kd5 {
    fn t() -> T {
        T::Struct { name: std::any::type_name::<Self>(), fields: vec![FieldT { name: Some("a"), ty: <[u8; 2] as Modeled>::t, with: None, meta: vec![], docs: vec![] }, FieldT { name: Some("b"), ty: <S1m0 as Modeled>::t, with: None, meta: vec![], docs: vec![] }, FieldT { name: Some("c"), ty: <Value as Modeled>::t, with: None, meta: vec![], docs: vec![] }], meta: vec![], docs: vec![] }
    }
    fn m(&self) -> M {
        M::Struct(vec![("a".to_owned(), self.a.m()), ("b".to_owned(), self.b.m()), ("c".to_owned(), self.c.m())])
    }
    fn hidden(&self) -> Vec<u8> {
        vec![]
    }
    fn vals(n: usize, d: usize) -> Vec<Self> {
        let l0 = <[u8; 2] as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); let l1 = <S1m0 as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); let l2 = <Value as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); combos(&[l0.len(), l1.len(), l2.len()], n.max(1)).into_iter().map(|c: Vec<usize>| Self { a: l0[c[0]].dup(), b: l1[c[1]].dup(), c: l2[c[2]].dup() }).collect::<Vec<Self>>()
    }
    fn into_v(self) -> Option<Value> { Some(self.into()) }
    fn dup(&self) -> Self {
        Self { a: self.a.dup(), b: self.b.dup(), c: self.c.dup() }
    }
    fn dfmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        std::fmt::Debug::fmt(self, f)
    }
}

#[allow(dead_code)]
#[derive(Reflect, Clone, Debug)]
pub struct KdT5(
    pub [u8; 2],
    pub Value,
    pub S1m0,
);
#[allow(unused_variables, unused_mut, clippy::all)]
impl Modeled for KdT5 {
    fn t() -> T {
        T::TupleStruct { name: std::any::type_name::<Self>(), fields: vec![FieldT { name: None, ty: <[u8; 2] as Modeled>::t, with: None, meta: vec![], docs: vec![] }, FieldT { name: None, ty: <Value as Modeled>::t, with: None, meta: vec![], docs: vec![] }, FieldT { name: None, ty: <S1m0 as Modeled>::t, with: None, meta: vec![], docs: vec![] }], meta: vec![], docs: vec![] }
    }
    fn m(&self) -> M {
        M::TupleStruct(vec![self.0.m(), self.1.m(), self.2.m()])
    }
    fn hidden(&self) -> Vec<u8> {
        vec![]
    }
    fn vals(n: usize, d: usize) -> Vec<Self> {
        let l0 = <[u8; 2] as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); let l1 = <Value as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); let l2 = <S1m0 as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); combos(&[l0.len(), l1.len(), l2.len()], n.max(1)).into_iter().map(|c: Vec<usize>| Self(l0[c[0]].dup(), l1[c[1]].dup(), l2[c[2]].dup())).collect::<Vec<Self>>()
    }
    fn into_v(self) -> Option<Value> { Some(self.into()) }
    fn dup(&self) -> Self {
        Self(self.0.dup(), self.1.dup(), self.2.dup())
    }
    fn dfmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        std::fmt::Debug::fmt(self, f)
    }
}

#[allow(dead_code)]
#[derive(Reflect, Clone, Debug)]
pub enum KdE5 {
    A(
        S1m0,
        [u8; 2],
    ),
    B {
        x: Value,
        y: u8,
        z: [u8; 2],
    },
    C(
        [u8; 2],
    ),
    D {
        x: [u8; 2],
    },
}
#[allow(unused_variables, unused_mut, clippy::all)]
impl Modeled for KdE5 {
    fn t() -> T {
        T::Enum { name: std::any::type_name::<Self>(), variants: vec![VariantT { name: "A", kind: VK::Tuple, fields: vec![FieldT { name: None, ty: <S1m0 as Modeled>::t, with: None, meta: vec![], docs: vec![] }, FieldT { name: None, ty: <[u8; 2] as Modeled>::t, with: None, meta: vec![], docs: vec![] }], meta: vec![], docs: vec![] }, VariantT { name: "B", kind: VK::Struct, fields: vec![FieldT { name: Some("x"), ty: <Value as Modeled>::t, with: None, meta: vec![], docs: vec![] }, FieldT { name: Some("y"), ty: <u8 as Modeled>::t, with: None, meta: vec![], docs: vec![] }, FieldT { name: Some("z"), ty: <[u8; 2] as Modeled>::t, with: None, meta: vec![], docs: vec![] }], meta: vec![], docs: vec![] }, VariantT { name: "C", kind: VK::Tuple, fields: vec![FieldT { name: None, ty: <[u8; 2] as Modeled>::t, with: None, meta: vec![], docs: vec![] }], meta: vec![], docs: vec![] }, VariantT { name: "D", kind: VK::Struct, fields: vec![FieldT { name: Some("x"), ty: <[u8; 2] as Modeled>::t, with: None, meta: vec![], docs: vec![] }], meta: vec![], docs: vec![] }], skipped: vec![], meta: vec![], docs: vec![] }
    }
    fn m(&self) -> M {
        match self {
            Self::A(x0, x1) => M::Enum("A".into(), VK::Tuple, vec![(None, x0.m()), (None, x1.m())]),
            Self::B { x: x0, y: x1, z: x2 } => M::Enum("B".into(), VK::Struct, vec![(Some("x".into()), x0.m()), (Some("y".into()), x1.m()), (Some("z".into()), x2.m())]),
            Self::C(x0) => M::Enum("C".into(), VK::Tuple, vec![(None, x0.m())]),
            Self::D { x: x0 } => M::Enum("D".into(), VK::Struct, vec![(Some("x".into()), x0.m())]),
        }
    }
    fn hidden(&self) -> Vec<u8> {
        match self {
            _ => vec![],
        }
    }
    fn vals(n: usize, d: usize) -> Vec<Self> {
        let mut per: Vec<Vec<Self>> = vec![];
        per.push({ let l0 = <S1m0 as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); let l1 = <[u8; 2] as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); combos(&[l0.len(), l1.len()], n.max(1)).into_iter().map(|c: Vec<usize>| Self::A(l0[c[0]].dup(), l1[c[1]].dup())).collect::<Vec<Self>>() });
        per.push({ let l0 = <Value as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); let l1 = <u8 as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); let l2 = <[u8; 2] as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); combos(&[l0.len(), l1.len(), l2.len()], n.max(1)).into_iter().map(|c: Vec<usize>| Self::B { x: l0[c[0]].dup(), y: l1[c[1]].dup(), z: l2[c[2]].dup() }).collect::<Vec<Self>>() });
        per.push({ let l0 = <[u8; 2] as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); combos(&[l0.len()], n.max(1)).into_iter().map(|c: Vec<usize>| Self::C(l0[c[0]].dup())).collect::<Vec<Self>>() });
        per.push({ let l0 = <[u8; 2] as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); combos(&[l0.len()], n.max(1)).into_iter().map(|c: Vec<usize>| Self::D { x: l0[c[0]].dup() }).collect::<Vec<Self>>() });
        interleave(per, n)
    }
    fn into_v(self) -> Option<Value> { Some(self.into()) }
    fn dup(&self) -> Self {
        match self {
            Self::A(x0, x1) => Self::A(x0.dup(), x1.dup()),
            Self::B { x: x0, y: x1, z: x2 } => Self::B { x: x0.dup(), y: x1.dup(), z: x2.dup() },
            Self::C(x0) => Self::C(x0.dup()),
            Self::D { x: x0 } => Self::D { x: x0.dup() },
        }
    }
    fn dfmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        std::fmt::Debug::fmt(self, f)
    }
}

#[allow(dead_code)]
#[derive(Reflect, Clone, Debug)]
pub struct Kd6 {
    pub a: BTreeMap<u8, u8>,
    pub b: T1m0,
    pub c: NonZeroI16,
}
#[allow(unused_variables, unused_mut, clippy::all)]
impl Modeled for Kd6 {
    fn t() -> T {
        T::Struct { name: std::any::type_name::<Self>(), fields: vec![FieldT { name: Some("a"), ty: <BTreeMap<u8, u8> as Modeled>::t, with: None, meta: vec![], docs: vec![] }, FieldT { name: Some("b"), ty: <T1m0 as Modeled>::t, with: None, meta: vec![], docs: vec![] }, FieldT { name: Some("c"), ty: <NonZeroI16 as Modeled>::t, with: None, meta: vec![], docs: vec![] }], meta: vec![], docs: vec![] }
    }
    fn m(&self) -> M {
        M::Struct(vec![("a".to_owned(), self.a.m()), ("b".to_owned(), self.b.m()), ("c".to_owned(), self.c.m())])
    }
    fn hidden(&self) -> Vec<u8> {
        vec![]
    }
    fn vals(n: usize, d: usize) -> Vec<Self> {
        let l0 = <BTreeMap<u8, u8> as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); let l1 = <T1m0 as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); let l2 = <NonZeroI16 as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); combos(&[l0.len(), l1.len(), l2.len()], n.max(1)).into_iter().map(|c: Vec<usize>| Self { a: l0[c[0]].dup(), b: l1[c[1]].dup(), c: l2[c[2]].dup() }).collect::<Vec<Self>>()
    }
    fn into_v(self) -> Option<Value> { Some(self.into()) }
    fn dup(&self) -> Self {
        Self { a: self.a.dup(), b: self.b.dup(), c: self.c.dup() }
    }
    fn dfmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        std::fmt::Debug::fmt(self, f)
    }
}

#[allow(dead_code)]
#[derive(Reflect, Clone, Debug)]
pub struct KdT6(
    pub BTreeMap<u8, u8>,
    pub NonZeroI16,
    pub T1m0,
);
#[allow(unused_variables, unused_mut, clippy::all)]
impl Modeled for KdT6 {
    fn t() -> T {
        T::TupleStruct { name: std::any::type_name::<Self>(), fields: vec![FieldT { name: None, ty: <BTreeMap<u8, u8> as Modeled>::t, with: None, meta: vec![], docs: vec![] }, FieldT { name: None, ty: <NonZeroI16 as Modeled>::t, with: None, meta: vec![], docs: vec![] }, FieldT { name: None, ty: <T1m0 as Modeled>::t, with: None, meta: vec![], docs: vec![] }], meta: vec![], docs: vec![] }
    }
    fn m(&self) -> M {
        M::TupleStruct(vec![self.0.m(), self.1.m(), self.2.m()])
    }
    fn hidden(&self) -> Vec<u8> {
        vec![]
    }
    fn vals(n: usize, d: usize) -> Vec<Self> {
        let l0 = <BTreeMap<u8, u8> as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); let l1 = <NonZeroI16 as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); let l2 = <T1m0 as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); combos(&[l0.len(), l1.len(), l2.len()], n.max(1)).into_iter().map(|c: Vec<usize>| Self(l0[c[0]].dup(), l1[c[1]].dup(), l2[c[2]].dup())).collect::<Vec<Self>>()
    }
    fn into_v(self) -> Option<Value> { Some(self.into()) }
    fn dup(&self) -> Self {
        Self(self.0.dup(), self.1.dup(), self.2.dup())
    }
    fn dfmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        std::fmt::Debug::fmt(self, f)
    }
}

#[allow(dead_code)]
#[derive(Reflect, Clone, Debug)]
pub enum KdE6 {
    A(
        T1m0,
        BTreeMap<u8, u8>,
    ),
    B {
        x: NonZeroI16,
        y: u8,
        z: BTreeMap<u8, u8>,
    },
    C(
        BTreeMap<u8, u8>,
    ),
    D {
        x: BTreeMap<u8, u8>,
    },
}
#[allow(unused_variables, unused_mut, clippy::all)]
impl Modeled for KdE6 {
    fn t() -> T {
        T::Enum { name: std::any::type_name::<Self>(), variants: vec![VariantT { name: "A", kind: VK::Tuple, fields: vec![FieldT { name: None, ty: <T1m0 as Modeled>::t, with: None, meta: vec![], docs: vec![] }, FieldT { name: None, ty: <BTreeMap<u8, u8> as Modeled>::t, with: None, meta: vec![], docs: vec![] }], meta: vec![], docs: vec![] }, VariantT { name: "B", kind: VK::Struct, fields: vec![FieldT { name: Some("x"), ty: <NonZeroI16 as Modeled>::t, with: None, meta: vec![], docs: vec![] }, FieldT { name: Some("y"), ty: <u8 as Modeled>::t, with: None, meta: vec![], docs: vec![] }, FieldT { name: Some("z"), ty: <BTreeMap<u8, u8> as Modeled>::t, with: None, meta: vec![], docs: vec![] }], meta: vec![], docs: vec![] }, VariantT { name: "C", kind: VK::Tuple, fields: vec![FieldT { name: None, ty: <BTreeMap<u8, u8> as Modeled>::t, with: None, meta: vec![], docs: vec![] }], meta: vec![], docs: vec![] }, VariantT { name: "D", kind: VK::Struct, fields: vec![FieldT { name: Some("x"), ty: <BTreeMap<u8, u8> as Modeled>::t, with: None, meta: vec![], docs: vec![] }], meta: vec![], docs: vec![] }], skipped: vec![], meta: vec![], docs: vec![] }
    }
    fn m(&self) -> M {
        match self {
            Self::A(x0, x1) => M::Enum("A".into(), VK::Tuple, vec![(None, x0.m()), (None, x1.m())]),
            Self::B { x: x0, y: x1, z: x2 } => M::Enum("B".into(), VK::Struct, vec![(Some("x".into()), x0.m()), (Some("y".into()), x1.m()), (Some("z".into()), x2.m())]),
            Self::C(x0) => M::Enum("C".into(), VK::Tuple, vec![(None, x0.m())]),
            Self::D { x: x0 } => M::Enum("D".into(), VK::Struct, vec![(Some("x".into()), x0.m())]),
        }
    }
    fn hidden(&self) -> Vec<u8> {
        match self {
            _ => vec![],
        }
    }
    fn vals(n: usize, d: usize) -> Vec<Self> {
        let mut per: Vec<Vec<Self>> = vec![];
        per.push({ let l0 = <T1m0 as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); let l1 = <BTreeMap<u8, u8> as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); combos(&[l0.len(), l1.len()], n.max(1)).into_iter().map(|c: Vec<usize>| Self::A(l0[c[0]].dup(), l1[c[1]].dup())).collect::<Vec<Self>>() });
        per.push({ let l0 = <NonZeroI16 as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); let l1 = <u8 as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); let l2 = <BTreeMap<u8, u8> as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); combos(&[l0.len(), l1.len(), l2.len()], n.max(1)).into_iter().map(|c: Vec<usize>| Self::B { x: l0[c[0]].dup(), y: l1[c[1]].dup(), z: l2[c[2]].dup() }).collect::<Vec<Self>>() });
        per.push({ let l0 = <BTreeMap<u8, u8> as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); combos(&[l0.len()], n.max(1)).into_iter().map(|c: Vec<usize>| Self::C(l0[c[0]].dup())).collect::<Vec<Self>>() });
        per.push({ let l0 = <BTreeMap<u8, u8> as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); combos(&[l0.len()], n.max(1)).into_iter().map(|c: Vec<usize>| Self::D { x: l0[c[0]].dup() }).collect::<Vec<Self>>() });
        interleave(per, n)
    }
    fn into_v(self) -> Option<Value> { Some(self.into()) }
    fn dup(&self) -> Self {
        match self {
            Self::A(x0, x1) => Self::A(x0.dup(), x1.dup()),
            Self::B { x: x0, y: x1, z: x2 } => Self::B { x: x0.dup(), y: x1.dup(), z: x2.dup() },
            Self::C(x0) => Self::C(x0.dup()),
            Self::D { x: x0 } => Self::D { x: x0.dup() },
        }
    }
    fn dfmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        std::fmt::Debug::fmt(self, f)
    }
}

#[allow(dead_code)]
#[derive(Reflect, Clone, Debug)]
pub struct Kd7 {
    pub a: (u8,),
    pub b: Units,
    pub c: [u8; 0],
}
#[allow(unused_variables, unused_mut, clippy::all)]
impl Modeled for Kd7 {
    fn t() -> T {
        T::Struct { name: std::any::type_name::<Self>(), fields: vec![FieldT { name: Some("a"), ty: <(u8,) as Modeled>::t, with: None, meta: vec![], docs: vec![] }, FieldT { name: Some("b"), ty: <Units as Modeled>::t, with: None, meta: vec![], docs: vec![] }, FieldT { name: Some("c"), ty: <[u8; 0] as Modeled>::t, with: None, meta: vec![], docs: vec![] }], meta: vec![], docs: vec![] }
    }
    fn m(&self) -> M {
        M::Struct(vec![("a".to_owned(), self.a.m()), ("b".to_owned(), self.b.m()), ("c".to_owned(), self.c.m())])
    }
    fn hidden(&self) -> Vec<u8> {
        vec![]
    }
    fn vals(n: usize, d: usize) -> Vec<Self> {
        let l0 = <(u8,) as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); let l1 = <Units as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); let l2 = <[u8; 0] as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); combos(&[l0.len(), l1.len(), l2.len()], n.max(1)).into_iter().map(|c: Vec<usize>| Self { a: l0[c[0]].dup(), b: l1[c[1]].dup(), c: l2[c[2]].dup() }).collect::<Vec<Self>>()
    }
    fn into_v(self) -> Option<Value> { Some(self.into()) }
    fn dup(&self) -> Self {
        Self { a: self.a.dup(), b: self.b.dup(), c: self.c.dup() }
    }
    fn dfmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        std::fmt::Debug::fmt(self, f)
    }
}

#[allow(dead_code)]
#[derive(Reflect, Clone, Debug)]
pub struct KdT7(
    pub (u8,),
    pub [u8; 0],
    pub Units,
);
#[allow(unused_variables, unused_mut, clippy::all)]
impl Modeled for KdT7 {
    fn t() -> T {
        T::TupleStruct { name: std::any::type_name::<Self>(), fields: vec![FieldT { name: None, ty: <(u8,) as Modeled>::t, with: None, meta: vec![], docs: vec![] }, FieldT { name: None, ty: <[u8; 0] as Modeled>::t, with: None, meta: vec![], docs: vec![] }, FieldT { name: None, ty: <Units as Modeled>::t, with: None, meta: vec![], docs: vec![] }], meta: vec![], docs: vec![] }
    }
    fn m(&self) -> M {
        M::TupleStruct(vec![self.0.m(), self.1.m(), self.2.m()])
    }
    fn hidden(&self) -> Vec<u8> {
        vec![]
    }
    fn vals(n: usize, d: usize) -> Vec<Self> {
        let l0 = <(u8,) as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); let l1 = <[u8; 0] as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); let l2 = <Units as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); combos(&[l0.len(), l1.len(), l2.len()], n.max(1)).into_iter().map(|c: Vec<usize>| Self(l0[c[0]].dup(), l1[c[1]].dup(), l2[c[2]].dup())).collect::<Vec<Self>>()
    }
    fn into_v(self) -> Option<Value> { Some(self.into()) }
    fn dup(&self) -> Self {
        Self(self.0.dup(), self.1.dup(), self.2.dup())
    }
    fn dfmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        std::fmt::Debug::fmt(self, f)
    }
}

#[allow(dead_code)]
#[derive(Reflect, Clone, Debug)]
pub enum KdE7 {
    A(
        Units,
        (u8,),
    ),
    B {
        x: [u8; 0],
        y: u8,
        z: (u8,),
    },
    C(
        (u8,),
    ),
    D {
        x: (u8,),
    },
}
#[allow(unused_variables, unused_mut, clippy::all)]
impl Modeled for KdE7 {
    fn t() -> T {
        T::Enum { name: std::any::type_name::<Self>(), variants: vec![VariantT { name: "A", kind: VK::Tuple, fields: vec![FieldT { name: None, ty: <Units as Modeled>::t, with: None, meta: vec![], docs: vec![] }, FieldT { name: None, ty: <(u8,) as Modeled>::t, with: None, meta: vec![], docs: vec![] }], meta: vec![], docs: vec![] }, VariantT { name: "B", kind: VK::Struct, fields: vec![FieldT { name: Some("x"), ty: <[u8; 0] as Modeled>::t, with: None, meta: vec![], docs: vec![] }, FieldT { name: Some("y"), ty: <u8 as Modeled>::t, with: None, meta: vec![], docs: vec![] }, FieldT { name: Some("z"), ty: <(u8,) as Modeled>::t, with: None, meta: vec![], docs: vec![] }], meta: vec![], docs: vec![] }, VariantT { name: "C", kind: VK::Tuple, fields: vec![FieldT { name: None, ty: <(u8,) as Modeled>::t, with: None, meta: vec![], docs: vec![] }], meta: vec![], docs: vec![] }, VariantT { name: "D", kind: VK::Struct, fields: vec![FieldT { name: Some("x"), ty: <(u8,) as Modeled>::t, with: None, meta: vec![], docs: vec![] }], meta: vec![], docs: vec![] }], skipped: vec![], meta: vec![], docs: vec![] }
    }
    fn m(&self) -> M {
        match self {
            Self::A(x0, x1) => M::Enum("A".into(), VK::Tuple, vec![(None, x0.m()), (None, x1.m())]),
            Self::B { x: x0, y: x1, z: x2 } => M::Enum("B".into(), VK::Struct, vec![(Some("x".into()), x0.m()), (Some("y".into()), x1.m()), (Some("z".into()), x2.m())]),
            Self::C(x0) => M::Enum("C".into(), VK::Tuple, vec![(None, x0.m())]),
            Self::D { x: x0 } => M::Enum("D".into(), VK::Struct, vec![(Some("x".into()), x0.m())]),
        }
    }
    fn hidden(&self) -> Vec<u8> {
        match self {
            _ => vec![],
        }
    }
    fn vals(n: usize, d: usize) -> Vec<Self> {
        let mut per: Vec<Vec<Self>> = vec![];
        per.push({ let l0 = <Units as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); let l1 = <(u8,) as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); combos(&[l0.len(), l1.len()], n.max(1)).into_iter().map(|c: Vec<usize>| Self::A(l0[c[0]].dup(), l1[c[1]].dup())).collect::<Vec<Self>>() });
        per.push({ let l0 = <[u8; 0] as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); let l1 = <u8 as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); let l2 = <(u8,) as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); combos(&[l0.len(), l1.len(), l2.len()], n.max(1)).into_iter().map(|c: Vec<usize>| Self::B { x: l0[c[0]].dup(), y: l1[c[1]].dup(), z: l2[c[2]].dup() }).collect::<Vec<Self>>() });
        per.push({ let l0 = <(u8,) as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); combos(&[l0.len()], n.max(1)).into_iter().map(|c: Vec<usize>| Self::C(l0[c[0]].dup())).collect::<Vec<Self>>() });
        per.push({ let l0 = <(u8,) as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); combos(&[l0.len()], n.max(1)).into_iter().map(|c: Vec<usize>| Self::D { x: l0[c[0]].dup() }).collect::<Vec<Self>>() });
        interleave(per, n)
    }
    fn into_v(self) -> Option<Value> { Some(self.into()) }
    fn dup(&self) -> Self {
        match self {
            Self::A(x0, x1) => Self::A(x0.dup(), x1.dup()),
            Self::B { x: x0, y: x1, z: x2 } => Self::B { x: x0.dup(), y: x1.dup(), z: x2.dup() },
            Self::C(x0) => Self::C(x0.dup()),
            Self::D { x: x0 } => Self::D { x: x0.dup() },
        }
    }
    fn dfmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        std::fmt::Debug::fmt(self, f)
    }
}

#[allow(dead_code)]
#[derive(Reflect, Clone, Debug)]
pub struct Kd8 {
    pub a: S1m0,
    pub b: OpA,
    pub c: Box<E1m0>,
}
#[allow(unused_variables, unused_mut, clippy::all)]
impl Modeled for Kd8 {
    fn t() -> T {
        T::Struct { name: std::any::type_name::<Self>(), fields: vec![FieldT { name: Some("a"), ty: <S1m0 as Modeled>::t, with: None, meta: vec![], docs: vec![] }, FieldT { name: Some("b"), ty: <OpA as Modeled>::t, with: None, meta: vec![], docs: vec![] }, FieldT { name: Some("c"), ty: <Box<E1m0> as Modeled>::t, with: None, meta: vec![], docs: vec![] }], meta: vec![], docs: vec![] }
    }
    fn m(&self) -> M {
        M::Struct(vec![("a".to_owned(), self.a.m()), ("b".to_owned(), self.b.m()), ("c".to_owned(), self.c.m())])
    }
    fn hidden(&self) -> Vec<u8> {
        vec![]
    }
    fn vals(n: usize, d: usize) -> Vec<Self> {
        let l0 = <S1m0 as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); let l1 = <OpA as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); let l2 = <Box<E1m0> as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); combos(&[l0.len(), l1.len(), l2.len()], n.max(1)).into_iter().map(|c: Vec<usize>| Self { a: l0[c[0]].dup(), b: l1[c[1]].dup(), c: l2[c[2]].dup() }).collect::<Vec<Self>>()
    }
    fn into_v(self) -> Option<Value> { Some(self.into()) }
    fn dup(&self) -> Self {
        Self { a: self.a.dup(), b: self.b.dup(), c: self.c.dup() }
    }
    fn dfmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        std::fmt::Debug::fmt(self, f)
    }
}

#[allow(dead_code)]
#[derive(Reflect, Clone, Debug)]
pub struct KdT8(
    pub S1m0,
    pub Box<E1m0>,
    pub OpA,
);
#[allow(unused_variables, unused_mut, clippy::all)]
impl Modeled for KdT8 {
    fn t() -> T {
        T::TupleStruct { name: std::any::type_name::<Self>(), fields: vec![FieldT { name: None, ty: <S1m0 as Modeled>::t, with: None, meta: vec![], docs: vec![] }, FieldT { name: None, ty: <Box<E1m0> as Modeled>::t, with: None, meta: vec![], docs: vec![] }, FieldT { name: None, ty: <OpA as Modeled>::t, with: None, meta: vec![], docs: vec![] }], meta: vec![], docs: vec![] }
    }
    fn m(&self) -> M {
        M::TupleStruct(vec![self.0.m(), self.1.m(), self.2.m()])
    }
    fn hidden(&self) -> Vec<u8> {
        vec![]
    }
    fn vals(n: usize, d: usize) -> Vec<Self> {
        let l0 = <S1m0 as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); let l1 = <Box<E1m0> as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); let l2 = <OpA as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); combos(&[l0.len(), l1.len(), l2.len()], n.max(1)).into_iter().map(|c: Vec<usize>| Self(l0[c[0]].dup(), l1[c[1]].dup(), l2[c[2]].dup())).collect::<Vec<Self>>()
    }
    fn into_v(self) -> Option<Value> { Some(self.into()) }
    fn dup(&self) -> Self {
        Self(self.0.dup(), self.1.dup(), self.2.dup())
    }
    fn dfmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        std::fmt::Debug::fmt(self, f)
    }
}

#[allow(dead_code)]
#[derive(Reflect, Clone, Debug)]
pub enum KdE8 {
    A(
        OpA,
        S1m0,
    ),
    B {
        x: Box<E1m0>,
        y: u8,
        z: S1m0,
    },
    C(
        S1m0,
    ),
    D {
        x: S1m0,
    },
}
#[allow(unused_variables, unused_mut, clippy::all)]
impl Modeled for KdE8 {
    fn t() -> T {
        T::Enum { name: std::any::type_name::<Self>(), variants: vec![VariantT { name: "A", kind: VK::Tuple, fields: vec![FieldT { name: None, ty: <OpA as Modeled>::t, with: None, meta: vec![], docs: vec![] }, FieldT { name: None, ty: <S1m0 as Modeled>::t, with: None, meta: vec![], docs: vec![] }], meta: vec![], docs: vec![] }, VariantT { name: "B", kind: VK::Struct, fields: vec![FieldT { name: Some("x"), ty: <Box<E1m0> as Modeled>::t, with: None, meta: vec![], docs: vec![] }, FieldT { name: Some("y"), ty: <u8 as Modeled>::t, with: None, meta: vec![], docs: vec![] }, FieldT { name: Some("z"), ty: <S1m0 as Modeled>::t, with: None, meta: vec![], docs: vec![] }], meta: vec![], docs: vec![] }, VariantT { name: "C", kind: VK::Tuple, fields: vec![FieldT { name: None, ty: <S1m0 as Modeled>::t, with: None, meta: vec![], docs: vec![] }], meta: vec![], docs: vec![] }, VariantT { name: "D", kind: VK::Struct, fields: vec![FieldT { name: Some("x"), ty: <S1m0 as Modeled>::t, with: None, meta: vec![], docs: vec![] }], meta: vec![], docs: vec![] }], skipped: vec![], meta: vec![], docs: vec![] }
    }
    fn m(&self) -> M {
        match self {
            Self::A(x0, x1) => M::Enum("A".into(), VK::Tuple, vec![(None, x0.m()), (None, x1.m())]),
            Self::B { x: x0, y: x1, z: x2 } => M::Enum("B".into(), VK::Struct, vec![(Some("x".into()), x0.m()), (Some("y".into()), x1.m()), (Some("z".into()), x2.m())]),
            Self::C(x0) => M::Enum("C".into(), VK::Tuple, vec![(None, x0.m())]),
            Self::D { x: x0 } => M::Enum("D".into(), VK::Struct, vec![(Some("x".into()), x0.m())]),
        }
    }
    fn hidden(&self) -> Vec<u8> {
        match self {
            _ => vec![],
        }
    }
    fn vals(n: usize, d: usize) -> Vec<Self> {
        let mut per: Vec<Vec<Self>> = vec![];
        per.push({ let l0 = <OpA as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); let l1 = <S1m0 as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); combos(&[l0.len(), l1.len()], n.max(1)).into_iter().map(|c: Vec<usize>| Self::A(l0[c[0]].dup(), l1[c[1]].dup())).collect::<Vec<Self>>() });
        per.push({ let l0 = <Box<E1m0> as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); let l1 = <u8 as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); let l2 = <S1m0 as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); combos(&[l0.len(), l1.len(), l2.len()], n.max(1)).into_iter().map(|c: Vec<usize>| Self::B { x: l0[c[0]].dup(), y: l1[c[1]].dup(), z: l2[c[2]].dup() }).collect::<Vec<Self>>() });
        per.push({ let l0 = <S1m0 as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); combos(&[l0.len()], n.max(1)).into_iter().map(|c: Vec<usize>| Self::C(l0[c[0]].dup())).collect::<Vec<Self>>() });
        per.push({ let l0 = <S1m0 as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); combos(&[l0.len()], n.max(1)).into_iter().map(|c: Vec<usize>| Self::D { x: l0[c[0]].dup() }).collect::<Vec<Self>>() });
        interleave(per, n)
    }
    fn into_v(self) -> Option<Value> { Some(self.into()) }
    fn dup(&self) -> Self {
        match self {
            Self::A(x0, x1) => Self::A(x0.dup(), x1.dup()),
            Self::B { x: x0, y: x1, z: x2 } => Self::B { x: x0.dup(), y: x1.dup(), z: x2.dup() },
            Self::C(x0) => Self::C(x0.dup()),
            Self::D { x: x0 } => Self::D { x: x0.dup() },
        }
    }
    fn dfmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        std::fmt::Debug::fmt(self, f)
    }
}

#[allow(dead_code)]
#[derive(Reflect, Clone, Debug)]
pub struct Kd9 {
    pub a: T1m0,
    pub b: Value,
    pub c: (),
}
#[allow(unused_variables, unused_mut, clippy::all)]
impl Modeled for Kd9 {
    fn t() -> T {
        T::Struct { name: std::any::type_name::<Self>(), fields: vec![FieldT { name: Some("a"), ty: <T1m0 as Modeled>::t, with: None, meta: vec![], docs: vec![] }, FieldT { name: Some("b"), ty: <Value as Modeled>::t, with: None, meta: vec![], docs: vec![] }, FieldT { name: Some("c"), ty: <() as Modeled>::t, with: None, meta: vec![], docs: vec![] }], meta: vec![], docs: vec![] }
    }
    fn m(&self) -> M {
        M::Struct(vec![("a".to_owned(), self.a.m()), ("b".to_owned(), self.b.m()), ("c".to_owned(), self.c.m())])
    }
    fn hidden(&self) -> Vec<u8> {
        vec![]
    }
    fn vals(n: usize, d: usize) -> Vec<Self> {
        let l0 = <T1m0 as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); let l1 = <Value as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); let l2 = <() as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); combos(&[l0.len(), l1.len(), l2.len()], n.max(1)).into_iter().map(|c: Vec<usize>| Self { a: l0[c[0]].dup(), b: l1[c[1]].dup(), c: l2[c[2]].dup() }).collect::<Vec<Self>>()
    }
    fn into_v(self) -> Option<Value> { Some(self.into()) }
    fn dup(&self) -> Self {
        Self { a: self.a.dup(), b: self.b.dup(), c: self.c.dup() }
    }
    fn dfmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        std::fmt::Debug::fmt(self, f)
    }
}

#[allow(dead_code)]
#[derive(Reflect, Clone, Debug)]
pub struct KdT9(
    pub T1m0,
    pub (),
    pub Value,
);
#[allow(unused_variables, unused_mut, clippy::all)]
impl Modeled for KdT9 {
    fn t() -> T {
        T::TupleStruct { name: std::any::type_name::<Self>(), fields: vec![FieldT { name: None, ty: <T1m0 as Modeled>::t, with: None, meta: vec![], docs: vec![] }, FieldT { name: None, ty: <() as Modeled>::t, with: None, meta: vec![], docs: vec![] }, FieldT { name: None, ty: <Value as Modeled>::t, with: None, meta: vec![], docs: vec![] }], meta: vec![], docs: vec![] }
    }
    fn m(&self) -> M {
        M::TupleStruct(vec![self.0.m(), self.1.m(), self.2.m()])
    }
    fn hidden(&self) -> Vec<u8> {
        vec![]
    }
    fn vals(n: usize, d: usize) -> Vec<Self> {
        let l0 = <T1m0 as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); let l1 = <() as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); let l2 = <Value as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); combos(&[l0.len(), l1.len(), l2.len()], n.max(1)).into_iter().map(|c: Vec<usize>| Self(l0[c[0]].dup(), l1[c[1]].dup(), l2[c[2]].dup())).collect::<Vec<Self>>()
    }
    fn into_v(self) -> Option<Value> { Some(self.into()) }
    fn dup(&self) -> Self {
        Self(self.0.dup(), self.1.dup(), self.2.dup())
    }
    fn dfmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        std::fmt::Debug::fmt(self, f)
    }
}

#[allow(dead_code)]
#[derive(Reflect, Clone, Debug)]
pub enum KdE9 {
    A(
        Value,
        T1m0,
    ),
    B {
        x: (),
        y: u8,
        z: T1m0,
    },
    C(
        T1m0,
    ),
    D {
        x: T1m0,
    },
}
#[allow(unused_variables, unused_mut, clippy::all)]
impl Modeled for KdE9 {
    fn t() -> T {
        T::Enum { name: std::any::type_name::<Self>(), variants: vec![VariantT { name: "A", kind: VK::Tuple, fields: vec![FieldT { name: None, ty: <Value as Modeled>::t, with: None, meta: vec![], docs: vec![] }, FieldT { name: None, ty: <T1m0 as Modeled>::t, with: None, meta: vec![], docs: vec![] }], meta: vec![], docs: vec![] }, VariantT { name: "B", kind: VK::Struct, fields: vec![FieldT { name: Some("x"), ty: <() as Modeled>::t, with: None, meta: vec![], docs: vec![] }, FieldT { name: Some("y"), ty: <u8 as Modeled>::t, with: None, meta: vec![], docs: vec![] }, FieldT { name: Some("z"), ty: <T1m0 as Modeled>::t, with: None, meta: vec![], docs: vec![] }], meta: vec![], docs: vec![] }, VariantT { name: "C", kind: VK::Tuple, fields: vec![FieldT { name: None, ty: <T1m0 as Modeled>::t, with: None, meta: vec![], docs: vec![] }], meta: vec![], docs: vec![] }, VariantT { name: "D", kind: VK::Struct, fields: vec![FieldT { name: Some("x"), ty: <T1m0 as Modeled>::t, with: None, meta: vec![], docs: vec![] }], meta: vec![], docs: vec![] }], skipped: vec![], meta: vec![], docs: vec![] }
    }
    fn m(&self) -> M {
        match self {
            Self::A(x0, x1) => M::Enum("A".into(), VK::Tuple, vec![(None, x0.m()), (None, x1.m())]),
            Self::B { x: x0, y: x1, z: x2 } => M::Enum("B".into(), VK::Struct, vec![(Some("x".into()), x0.m()), (Some("y".into()), x1.m()), (Some("z".into()), x2.m())]),
            Self::C(x0) => M::Enum("C".into(), VK::Tuple, vec![(None, x0.m())]),
            Self::D { x: x0 } => M::Enum("D".into(), VK::Struct, vec![(Some("x".into()), x0.m())]),
        }
    }
    fn hidden(&self) -> Vec<u8> {
        match self {
            _ => vec![],
        }
    }
    fn vals(n: usize, d: usize) -> Vec<Self> {
        let mut per: Vec<Vec<Self>> = vec![];
        per.push({ let l0 = <Value as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); let l1 = <T1m0 as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); combos(&[l0.len(), l1.len()], n.max(1)).into_iter().map(|c: Vec<usize>| Self::A(l0[c[0]].dup(), l1[c[1]].dup())).collect::<Vec<Self>>() });
        per.push({ let l0 = <() as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); let l1 = <u8 as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); let l2 = <T1m0 as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); combos(&[l0.len(), l1.len(), l2.len()], n.max(1)).into_iter().map(|c: Vec<usize>| Self::B { x: l0[c[0]].dup(), y: l1[c[1]].dup(), z: l2[c[2]].dup() }).collect::<Vec<Self>>() });
        per.push({ let l0 = <T1m0 as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); combos(&[l0.len()], n.max(1)).into_iter().map(|c: Vec<usize>| Self::C(l0[c[0]].dup())).collect::<Vec<Self>>() });
        per.push({ let l0 = <T1m0 as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); combos(&[l0.len()], n.max(1)).into_iter().map(|c: Vec<usize>| Self::D { x: l0[c[0]].dup() }).collect::<Vec<Self>>() });
        interleave(per, n)
    }
    fn into_v(self) -> Option<Value> { Some(self.into()) }
    fn dup(&self) -> Self {
        match self {
            Self::A(x0, x1) => Self::A(x0.dup(), x1.dup()),
            Self::B { x: x0, y: x1, z: x2 } => Self::B { x: x0.dup(), y: x1.dup(), z: x2.dup() },
            Self::C(x0) => Self::C(x0.dup()),
            Self::D { x: x0 } => Self::D { x: x0.dup() },
        }
    }
    fn dfmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        std::fmt::Debug::fmt(self, f)
    }
}

#[allow(dead_code)]
#[derive(Reflect, Clone, Debug)]
pub struct Kd10 {
    pub a: Units,
    pub b: NonZeroI16,
    pub c: u8,
}
#[allow(unused_variables, unused_mut, clippy::all)]
impl Modeled for Kd10 {
    fn t() -> T {
        T::Struct { name: std::any::type_name::<Self>(), fields: vec![FieldT { name: Some("a"), ty: <Units as Modeled>::t, with: None, meta: vec![], docs: vec![] }, FieldT { name: Some("b"), ty: <NonZeroI16 as Modeled>::t, with: None, meta: vec![], docs: vec![] }, FieldT { name: Some("c"), ty: <u8 as Modeled>::t, with: None, meta: vec![], docs: vec![] }], meta: vec![], docs: vec![] }
    }
    fn m(&self) -> M {
        M::Struct(vec![("a".to_owned(), self.a.m()), ("b".to_owned(), self.b.m()), ("c".to_owned(), self.c.m())])
    }
    fn hidden(&self) -> Vec<u8> {
        vec![]
    }
    fn vals(n: usize, d: usize) -> Vec<Self> {
        let l0 = <Units as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); let l1 = <NonZeroI16 as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); let l2 = <u8 as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); combos(&[l0.len(), l1.len(), l2.len()], n.max(1)).into_iter().map(|c: Vec<usize>| Self { a: l0[c[0]].dup(), b: l1[c[1]].dup(), c: l2[c[2]].dup() }).collect::<Vec<Self>>()
    }
    fn into_v(self) -> Option<Value> { Some(self.into()) }
    fn dup(&self) -> Self {
        Self { a: self.a.dup(), b: self.b.dup(), c: self.c.dup() }
    }
    fn dfmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        std::fmt::Debug::fmt(self, f)
    }
}

#[allow(dead_code)]
#[derive(Reflect, Clone, Debug)]
pub struct KdT10(
    pub Units,
    pub u8,
    pub NonZeroI16,
);
#[allow(unused_variables, unused_mut, clippy::all)]
impl Modeled for KdT10 {
    fn t() -> T {
        T::TupleStruct { name: std::any::type_name::<Self>(), fields: vec![FieldT { name: None, ty: <Units as Modeled>::t, with: None, meta: vec![], docs: vec![] }, FieldT { name: None, ty: <u8 as Modeled>::t, with: None, meta: vec![], docs: vec![] }, FieldT { name: None, ty: <NonZeroI16 as Modeled>::t, with: None, meta: vec![], docs: vec![] }], meta: vec![], docs: vec![] }
    }
    fn m(&self) -> M {
        M::TupleStruct(vec![self.0.m(), self.1.m(), self.2.m()])
    }
    fn hidden(&self) -> Vec<u8> {
        vec![]
    }
    fn vals(n: usize, d: usize) -> Vec<Self> {
        let l0 = <Units as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); let l1 = <u8 as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); let l2 = <NonZeroI16 as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); combos(&[l0.len(), l1.len(), l2.len()], n.max(1)).into_iter().map(|c: Vec<usize>| Self(l0[c[0]].dup(), l1[c[1]].dup(), l2[c[2]].dup())).collect::<Vec<Self>>()
    }
    fn into_v(self) -> Option<Value> { Some(self.into()) }
    fn dup(&self) -> Self {
        Self(self.0.dup(), self.1.dup(), self.2.dup())
    }
    fn dfmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        std::fmt::Debug::fmt(self, f)
    }
}

#[allow(dead_code)]
#[derive(Reflect, Clone, Debug)]
pub enum KdE10 {
    A(
        NonZeroI16,
        Units,
    ),
    B {
        x: u8,
        y: u8,
        z: Units,
    },
    C(
        Units,
    ),
    D {
        x: Units,
    },
}
#[allow(unused_variables, unused_mut, clippy::all)]
impl Modeled for KdE10 {
    fn t() -> T {
        T::Enum { name: std::any::type_name::<Self>(), variants: vec![VariantT { name: "A", kind: VK::Tuple, fields: vec![FieldT { name: None, ty: <NonZeroI16 as Modeled>::t, with: None, meta: vec![], docs: vec![] }, FieldT { name: None, ty: <Units as Modeled>::t, with: None, meta: vec![], docs: vec![] }], meta: vec![], docs: vec![] }, VariantT { name: "B", kind: VK::Struct, fields: vec![FieldT { name: Some("x"), ty: <u8 as Modeled>::t, with: None, meta: vec![], docs: vec![] }, FieldT { name: Some("y"), ty: <u8 as Modeled>::t, with: None, meta: vec![], docs: vec![] }, FieldT { name: Some("z"), ty: <Units as Modeled>::t, with: None, meta: vec![], docs: vec![] }], meta: vec![], docs: vec![] }, VariantT { name: "C", kind: VK::Tuple, fields: vec![FieldT { name: None, ty: <Units as Modeled>::t, with: None, meta: vec![], docs: vec![] }], meta: vec![], docs: vec![] }, VariantT { name: "D", kind: VK::Struct, fields: vec![FieldT { name: Some("x"), ty: <Units as Modeled>::t, with: None, meta: vec![], docs: vec![] }], meta: vec![], docs: vec![] }], skipped: vec![], meta: vec![], docs: vec![] }
    }
    fn m(&self) -> M {
        match self {
            Self::A(x0, x1) => M::Enum("A".into(), VK::Tuple, vec![(None, x0.m()), (None, x1.m())]),
            Self::B { x: x0, y: x1, z: x2 } => M::Enum("B".into(), VK::Struct, vec![(Some("x".into()), x0.m()), (Some("y".into()), x1.m()), (Some("z".into()), x2.m())]),
            Self::C(x0) => M::Enum("C".into(), VK::Tuple, vec![(None, x0.m())]),
            Self::D { x: x0 } => M::Enum("D".into(), VK::Struct, vec![(Some("x".into()), x0.m())]),
        }
    }
    fn hidden(&self) -> Vec<u8> {
        match self {
            _ => vec![],
        }
    }
    fn vals(n: usize, d: usize) -> Vec<Self> {
        let mut per: Vec<Vec<Self>> = vec![];
        per.push({ let l0 = <NonZeroI16 as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); let l1 = <Units as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); combos(&[l0.len(), l1.len()], n.max(1)).into_iter().map(|c: Vec<usize>| Self::A(l0[c[0]].dup(), l1[c[1]].dup())).collect::<Vec<Self>>() });
        per.push({ let l0 = <u8 as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); let l1 = <u8 as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); let l2 = <Units as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); combos(&[l0.len(), l1.len(), l2.len()], n.max(1)).into_iter().map(|c: Vec<usize>| Self::B { x: l0[c[0]].dup(), y: l1[c[1]].dup(), z: l2[c[2]].dup() }).collect::<Vec<Self>>() });
        per.push({ let l0 = <Units as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); combos(&[l0.len()], n.max(1)).into_iter().map(|c: Vec<usize>| Self::C(l0[c[0]].dup())).collect::<Vec<Self>>() });
        per.push({ let l0 = <Units as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); combos(&[l0.len()], n.max(1)).into_iter().map(|c: Vec<usize>| Self::D { x: l0[c[0]].dup() }).collect::<Vec<Self>>() });
        interleave(per, n)
    }
    fn into_v(self) -> Option<Value> { Some(self.into()) }
    fn dup(&self) -> Self {
        match self {
            Self::A(x0, x1) => Self::A(x0.dup(), x1.dup()),
            Self::B { x: x0, y: x1, z: x2 } => Self::B { x: x0.dup(), y: x1.dup(), z: x2.dup() },
            Self::C(x0) => Self::C(x0.dup()),
            Self::D { x: x0 } => Self::D { x: x0.dup() },
        }
    }
    fn dfmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        std::fmt::Debug::fmt(self, f)
    }
}

#[allow(dead_code)]
#[derive(Reflect, Clone, Debug)]
pub struct Kd11 {
    pub a: OpA,
    pub b: [u8; 0],
    pub c: Unit,
}
#[allow(unused_variables, unused_mut, clippy::all)]
impl Modeled for Kd11 {
    fn t() -> T {
        T::Struct { name: std::any::type_name::<Self>(), fields: vec![FieldT { name: Some("a"), ty: <OpA as Modeled>::t, with: None, meta: vec![], docs: vec![] }, FieldT { name: Some("b"), ty: <[u8; 0] as Modeled>::t, with: None, meta: vec![], docs: vec![] }, FieldT { name: Some("c"), ty: <Unit as Modeled>::t, with: None, meta: vec![], docs: vec![] }], meta: vec![], docs: vec![] }
    }
    fn m(&self) -> M {
        M::Struct(vec![("a".to_owned(), self.a.m()), ("b".to_owned(), self.b.m()), ("c".to_owned(), self.c.m())])
    }
    fn hidden(&self) -> Vec<u8> {
        vec![]
    }
    fn vals(n: usize, d: usize) -> Vec<Self> {
        let l0 = <OpA as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); let l1 = <[u8; 0] as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); let l2 = <Unit as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); combos(&[l0.len(), l1.len(), l2.len()], n.max(1)).into_iter().map(|c: Vec<usize>| Self { a: l0[c[0]].dup(), b: l1[c[1]].dup(), c: l2[c[2]].dup() }).collect::<Vec<Self>>()
    }
    fn into_v(self) -> Option<Value> { Some(self.into()) }
    fn dup(&self) -> Self {
        Self { a: self.a.dup(), b: self.b.dup(), c: self.c.dup() }
    }
    fn dfmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        std::fmt::Debug::fmt(self, f)
    }
}

#[allow(dead_code)]
#[derive(Reflect, Clone, Debug)]
pub struct KdT11(
    pub OpA,
    pub Unit,
    pub [u8; 0],
);
#[allow(unused_variables, unused_mut, clippy::all)]
impl Modeled for KdT11 {
    fn t() -> T {
        T::TupleStruct { name: std::any::type_name::<Self>(), fields: vec![FieldT { name: None, ty: <OpA as Modeled>::t, with: None, meta: vec![], docs: vec![] }, FieldT { name: None, ty: <Unit as Modeled>::t, with: None, meta: vec![], docs: vec![] }, FieldT { name: None, ty: <[u8; 0] as Modeled>::t, with: None, meta: vec![], docs: vec![] }], meta: vec![], docs: vec![] }
    }
    fn m(&self) -> M {
        M::TupleStruct(vec![self.0.m(), self.1.m(), self.2.m()])
    }
    fn hidden(&self) -> Vec<u8> {
        vec![]
    }
    fn vals(n: usize, d: usize) -> Vec<Self> {
        let l0 = <OpA as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); let l1 = <Unit as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); let l2 = <[u8; 0] as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); combos(&[l0.len(), l1.len(), l2.len()], n.max(1)).into_iter().map(|c: Vec<usize>| Self(l0[c[0]].dup(), l1[c[1]].dup(), l2[c[2]].dup())).collect::<Vec<Self>>()
    }
    fn into_v(self) -> Option<Value> { Some(self.into()) }
    fn dup(&self) -> Self {
        Self(self.0.dup(), self.1.dup(), self.2.dup())
    }
    fn dfmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        std::fmt::Debug::fmt(self, f)
    }
}

#[allow(dead_code)]
#[derive(Reflect, Clone, Debug)]
pub enum KdE11 {
    A(
        [u8; 0],
        OpA,
    ),
    B {
        x: Unit,
        y: u8,
        z: OpA,
    },
    C(
        OpA,
    ),
    D {
        x: OpA,
    },
}
#[allow(unused_variables, unused_mut, clippy::all)]
impl Modeled for KdE11 {
    fn t() -> T {
        T::Enum { name: std::any::type_name::<Self>(), variants: vec![VariantT { name: "A", kind: VK::Tuple, fields: vec![FieldT { name: None, ty: <[u8; 0] as Modeled>::t, with: None, meta: vec![], docs: vec![] }, FieldT { name: None, ty: <OpA as Modeled>::t, with: None, meta: vec![], docs: vec![] }], meta: vec![], docs: vec![] }, VariantT { name: "B", kind: VK::Struct, fields: vec![FieldT { name: Some("x"), ty: <Unit as Modeled>::t, with: None, meta: vec![], docs: vec![] }, FieldT { name: Some("y"), ty: <u8 as Modeled>::t, with: None, meta: vec![], docs: vec![] }, FieldT { name: Some("z"), ty: <OpA as Modeled>::t, with: None, meta: vec![], docs: vec![] }], meta: vec![], docs: vec![] }, VariantT { name: "C", kind: VK::Tuple, fields: vec![FieldT { name: None, ty: <OpA as Modeled>::t, with: None, meta: vec![], docs: vec![] }], meta: vec![], docs: vec![] }, VariantT { name: "D", kind: VK::Struct, fields: vec![FieldT { name: Some("x"), ty: <OpA as Modeled>::t, with: None, meta: vec![], docs: vec![] }], meta: vec![], docs: vec![] }], skipped: vec![], meta: vec![], docs: vec![] }
    }
    fn m(&self) -> M {
        match self {
            Self::A(x0, x1) => M::Enum("A".into(), VK::Tuple, vec![(None, x0.m()), (None, x1.m())]),
            Self::B { x: x0, y: x1, z: x2 } => M::Enum("B".into(), VK::Struct, vec![(Some("x".into()), x0.m()), (Some("y".into()), x1.m()), (Some("z".into()), x2.m())]),
            Self::C(x0) => M::Enum("C".into(), VK::Tuple, vec![(None, x0.m())]),
            Self::D { x: x0 } => M::Enum("D".into(), VK::Struct, vec![(Some("x".into()), x0.m())]),
        }
    }
    fn hidden(&self) -> Vec<u8> {
        match self {
            _ => vec![],
        }
    }
    fn vals(n: usize, d: usize) -> Vec<Self> {
        let mut per: Vec<Vec<Self>> = vec![];
        per.push({ let l0 = <[u8; 0] as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); let l1 = <OpA as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); combos(&[l0.len(), l1.len()], n.max(1)).into_iter().map(|c: Vec<usize>| Self::A(l0[c[0]].dup(), l1[c[1]].dup())).collect::<Vec<Self>>() });
        per.push({ let l0 = <Unit as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); let l1 = <u8 as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); let l2 = <OpA as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); combos(&[l0.len(), l1.len(), l2.len()], n.max(1)).into_iter().map(|c: Vec<usize>| Self::B { x: l0[c[0]].dup(), y: l1[c[1]].dup(), z: l2[c[2]].dup() }).collect::<Vec<Self>>() });
        per.push({ let l0 = <OpA as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); combos(&[l0.len()], n.max(1)).into_iter().map(|c: Vec<usize>| Self::C(l0[c[0]].dup())).collect::<Vec<Self>>() });
        per.push({ let l0 = <OpA as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); combos(&[l0.len()], n.max(1)).into_iter().map(|c: Vec<usize>| Self::D { x: l0[c[0]].dup() }).collect::<Vec<Self>>() });
        interleave(per, n)
    }
    fn into_v(self) -> Option<Value> { Some(self.into()) }
    fn dup(&self) -> Self {
        match self {
            Self::A(x0, x1) => Self::A(x0.dup(), x1.dup()),
            Self::B { x: x0, y: x1, z: x2 } => Self::B { x: x0.dup(), y: x1.dup(), z: x2.dup() },
            Self::C(x0) => Self::C(x0.dup()),
            Self::D { x: x0 } => Self::D { x: x0.dup() },
        }
    }
    fn dfmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        std::fmt::Debug::fmt(self, f)
    }
}

#[allow(dead_code)]
#[derive(Reflect, Clone, Debug)]
pub struct Kd12 {
    pub a: Value,
    pub b: Box<E1m0>,
    pub c: Option<u8>,
}
#[allow(unused_variables, unused_mut, clippy::all)]
impl Modeled for Kd12 {
    fn t() -> T {
        T::Struct { name: std::any::type_name::<Self>(), fields: vec![FieldT { name: Some("a"), ty: <Value as Modeled>::t, with: None, meta: vec![], docs: vec![] }, FieldT { name: Some("b"), ty: <Box<E1m0> as Modeled>::t, with: None, meta: vec![], docs: vec![] }, FieldT { name: Some("c"), ty: <Option<u8> as Modeled>::t, with: None, meta: vec![], docs: vec![] }], meta: vec![], docs: vec![] }
    }
    fn m(&self) -> M {
        M::Struct(vec![("a".to_owned(), self.a.m()), ("b".to_owned(), self.b.m()), ("c".to_owned(), self.c.m())])
    }
    fn hidden(&self) -> Vec<u8> {
        vec![]
    }
    fn vals(n: usize, d: usize) -> Vec<Self> {
        let l0 = <Value as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); let l1 = <Box<E1m0> as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); let l2 = <Option<u8> as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); combos(&[l0.len(), l1.len(), l2.len()], n.max(1)).into_iter().map(|c: Vec<usize>| Self { a: l0[c[0]].dup(), b: l1[c[1]].dup(), c: l2[c[2]].dup() }).collect::<Vec<Self>>()
    }
    fn into_v(self) -> Option<Value> { Some(self.into()) }
    fn dup(&self) -> Self {
        Self { a: self.a.dup(), b: self.b.dup(), c: self.c.dup() }
    }
    fn dfmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        std::fmt::Debug::fmt(self, f)
    }
}

#[allow(dead_code)]
#[derive(Reflect, Clone, Debug)]
pub struct KdT12(
    pub Value,
    pub Option<u8>,
    pub Box<E1m0>,
);
#[allow(unused_variables, unused_mut, clippy::all)]
impl Modeled for KdT12 {
    fn t() -> T {
        T::TupleStruct { name: std::any::type_name::<Self>(), fields: vec![FieldT { name: None, ty: <Value as Modeled>::t, with: None, meta: vec![], docs: vec![] }, FieldT { name: None, ty: <Option<u8> as Modeled>::t, with: None, meta: vec![], docs: vec![] }, FieldT { name: None, ty: <Box<E1m0> as Modeled>::t, with: None, meta: vec![], docs: vec![] }], meta: vec![], docs: vec![] }
    }
    fn m(&self) -> M {
        M::TupleStruct(vec![self.0.m(), self.1.m(), self.2.m()])
    }
    fn hidden(&self) -> Vec<u8> {
        vec![]
    }
    fn vals(n: usize, d: usize) -> Vec<Self> {
        let l0 = <Value as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); let l1 = <Option<u8> as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); let l2 = <Box<E1m0> as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); combos(&[l0.len(), l1.len(), l2.len()], n.max(1)).into_iter().map(|c: Vec<usize>| Self(l0[c[0]].dup(), l1[c[1]].dup(), l2[c[2]].dup())).collect::<Vec<Self>>()
    }
    fn into_v(self) -> Option<Value> { Some(self.into()) }
    fn dup(&self) -> Self {
        Self(self.0.dup(), self.1.dup(), self.2.dup())
    }
    fn dfmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        std::fmt::Debug::fmt(self, f)
    }
}

#[allow(dead_code)]
#[derive(Reflect, Clone, Debug)]
pub enum KdE12 {
    A(
        Box<E1m0>,
        Value,
    ),
    B {
        x: Option<u8>,
        y: u8,
        z: Value,
    },
    C(
        Value,
    ),
    D {
        x: Value,
    },
}
#[allow(unused_variables, unused_mut, clippy::all)]
impl Modeled for KdE12 {
    fn t() -> T {
        T::Enum { name: std::any::type_name::<Self>(), variants: vec![VariantT { name: "A", kind: VK::Tuple, fields: vec![FieldT { name: None, ty: <Box<E1m0> as Modeled>::t, with: None, meta: vec![], docs: vec![] }, FieldT { name: None, ty: <Value as Modeled>::t, with: None, meta: vec![], docs: vec![] }], meta: vec![], docs: vec![] }, VariantT { name: "B", kind: VK::Struct, fields: vec![FieldT { name: Some("x"), ty: <Option<u8> as Modeled>::t, with: None, meta: vec![], docs: vec![] }, FieldT { name: Some("y"), ty: <u8 as Modeled>::t, with: None, meta: vec![], docs: vec![] }, FieldT { name: Some("z"), ty: <Value as Modeled>::t, with: None, meta: vec![], docs: vec![] }], meta: vec![], docs: vec![] }, VariantT { name: "C", kind: VK::Tuple, fields: vec![FieldT { name: None, ty: <Value as Modeled>::t, with: None, meta: vec![], docs: vec![] }], meta: vec![], docs: vec![] }, VariantT { name: "D", kind: VK::Struct, fields: vec![FieldT { name: Some("x"), ty: <Value as Modeled>::t, with: None, meta: vec![], docs: vec![] }], meta: vec![], docs: vec![] }], skipped: vec![], meta: vec![], docs: vec![] }
    }
    fn m(&self) -> M {
        match self {
            Self::A(x0, x1) => M::Enum("A".into(), VK::Tuple, vec![(None, x0.m()), (None, x1.m())]),
            Self::B { x: x0, y: x1, z: x2 } => M::Enum("B".into(), VK::Struct, vec![(Some("x".into()), x0.m()), (Some("y".into()), x1.m()), (Some("z".into()), x2.m())]),
            Self::C(x0) => M::Enum("C".into(), VK::Tuple, vec![(None, x0.m())]),
            Self::D { x: x0 } => M::Enum("D".into(), VK::Struct, vec![(Some("x".into()), x0.m())]),
        }
    }
    fn hidden(&self) -> Vec<u8> {
        match self {
            _ => vec![],
        }
    }
    fn vals(n: usize, d: usize) -> Vec<Self> {
        let mut per: Vec<Vec<Self>> = vec![];
        per.push({ let l0 = <Box<E1m0> as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); let l1 = <Value as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); combos(&[l0.len(), l1.len()], n.max(1)).into_iter().map(|c: Vec<usize>| Self::A(l0[c[0]].dup(), l1[c[1]].dup())).collect::<Vec<Self>>() });
        per.push({ let l0 = <Option<u8> as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); let l1 = <u8 as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); let l2 = <Value as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); combos(&[l0.len(), l1.len(), l2.len()], n.max(1)).into_iter().map(|c: Vec<usize>| Self::B { x: l0[c[0]].dup(), y: l1[c[1]].dup(), z: l2[c[2]].dup() }).collect::<Vec<Self>>() });
        per.push({ let l0 = <Value as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); combos(&[l0.len()], n.max(1)).into_iter().map(|c: Vec<usize>| Self::C(l0[c[0]].dup())).collect::<Vec<Self>>() });
        per.push({ let l0 = <Value as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); combos(&[l0.len()], n.max(1)).into_iter().map(|c: Vec<usize>| Self::D { x: l0[c[0]].dup() }).collect::<Vec<Self>>() });
        interleave(per, n)
    }
    fn into_v(self) -> Option<Value> { Some(self.into()) }
    fn dup(&self) -> Self {
        match self {
            Self::A(x0, x1) => Self::A(x0.dup(), x1.dup()),
            Self::B { x: x0, y: x1, z: x2 } => Self::B { x: x0.dup(), y: x1.dup(), z: x2.dup() },
            Self::C(x0) => Self::C(x0.dup()),
            Self::D { x: x0 } => Self::D { x: x0.dup() },
        }
    }
    fn dfmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        std::fmt::Debug::fmt(self, f)
    }
}

#[allow(dead_code)]
#[derive(Reflect, Clone, Debug)]
pub struct Kd13 {
    pub a: NonZeroI16,
    pub b: (),
    pub c: Vec<u8>,
}
#[allow(unused_variables, unused_mut, clippy::all)]
impl Modeled for Kd13 {
    fn t() -> T {
        T::Struct { name: std::any::type_name::<Self>(), fields: vec![FieldT { name: Some("a"), ty: <NonZeroI16 as Modeled>::t, with: None, meta: vec![], docs: vec![] }, FieldT { name: Some("b"), ty: <() as Modeled>::t, with: None, meta: vec![], docs: vec![] }, FieldT { name: Some("c"), ty: <Vec<u8> as Modeled>::t, with: None, meta: vec![], docs: vec![] }], meta: vec![], docs: vec![] }
    }
    fn m(&self) -> M {
        M::Struct(vec![("a".to_owned(), self.a.m()), ("b".to_owned(), self.b.m()), ("c".to_owned(), self.c.m())])
    }
    fn hidden(&self) -> Vec<u8> {
        vec![]
    }
    fn vals(n: usize, d: usize) -> Vec<Self> {
        let l0 = <NonZeroI16 as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); let l1 = <() as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); let l2 = <Vec<u8> as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); combos(&[l0.len(), l1.len(), l2.len()], n.max(1)).into_iter().map(|c: Vec<usize>| Self { a: l0[c[0]].dup(), b: l1[c[1]].dup(), c: l2[c[2]].dup() }).collect::<Vec<Self>>()
    }
    fn into_v(self) -> Option<Value> { Some(self.into()) }
    fn dup(&self) -> Self {
        Self { a: self.a.dup(), b: self.b.dup(), c: self.c.dup() }
    }
    fn dfmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        std::fmt::Debug::fmt(self, f)
    }
}

#[allow(dead_code)]
#[derive(Reflect, Clone, Debug)]
pub struct KdT13(
    pub NonZeroI16,
    pub Vec<u8>,
    pub (),
);
#[allow(unused_variables, unused_mut, clippy::all)]
impl Modeled for KdT13 {
    fn t() -> T {
        T::TupleStruct { name: std::any::type_name::<Self>(), fields: vec![FieldT { name: None, ty: <NonZeroI16 as Modeled>::t, with: None, meta: vec![], docs: vec![] }, FieldT { name: None, ty: <Vec<u8> as Modeled>::t, with: None, meta: vec![], docs: vec![] }, FieldT { name: None, ty: <() as Modeled>::t, with: None, meta: vec![], docs: vec![] }], meta: vec![], docs: vec![] }
    }
    fn m(&self) -> M {
        M::TupleStruct(vec![self.0.m(), self.1.m(), self.2.m()])
    }
    fn hidden(&self) -> Vec<u8> {
        vec![]
    }
    fn vals(n: usize, d: usize) -> Vec<Self> {
        let l0 = <NonZeroI16 as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); let l1 = <Vec<u8> as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); let l2 = <() as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); combos(&[l0.len(), l1.len(), l2.len()], n.max(1)).into_iter().map(|c: Vec<usize>| Self(l0[c[0]].dup(), l1[c[1]].dup(), l2[c[2]].dup())).collect::<Vec<Self>>()
    }
    fn into_v(self) -> Option<Value> { Some(self.into()) }
    fn dup(&self) -> Self {
        Self(self.0.dup(), self.1.dup(), self.2.dup())
    }
    fn dfmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        std::fmt::Debug::fmt(self, f)
    }
}

#[allow(dead_code)]
#[derive(Reflect, Clone, Debug)]
pub enum KdE13 {
    A(
        (),
        NonZeroI16,
    ),
    B {
        x: Vec<u8>,
        y: u8,
        z: NonZeroI16,
    },
    C(
        NonZeroI16,
    ),
    D {
        x: NonZeroI16,
    },
}
#[allow(unused_variables, unused_mut, clippy::all)]
impl Modeled for KdE13 {
    fn t() -> T {
        T::Enum { name: std::any::type_name::<Self>(), variants: vec![VariantT { name: "A", kind: VK::Tuple, fields: vec![FieldT { name: None, ty: <() as Modeled>::t, with: None, meta: vec![], docs: vec![] }, FieldT { name: None, ty: <NonZeroI16 as Modeled>::t, with: None, meta: vec![], docs: vec![] }], meta: vec![], docs: vec![] }, VariantT { name: "B", kind: VK::Struct, fields: vec![FieldT { name: Some("x"), ty: <Vec<u8> as Modeled>::t, with: None, meta: vec![], docs: vec![] }, FieldT { name: Some("y"), ty: <u8 as Modeled>::t, with: None, meta: vec![], docs: vec![] }, FieldT { name: Some("z"), ty: <NonZeroI16 as Modeled>::t, with: None, meta: vec![], docs: vec![] }], meta: vec![], docs: vec![] }, VariantT { name: "C", kind: VK::Tuple, fields: vec![FieldT { name: None, ty: <NonZeroI16 as Modeled>::t, with: None, meta: vec![], docs: vec![] }], meta: vec![], docs: vec![] }, VariantT { name: "D", kind: VK::Struct, fields: vec![FieldT { name: Some("x"), ty: <NonZeroI16 as Modeled>::t, with: None, meta: vec![], docs: vec![] }], meta: vec![], docs: vec![] }], skipped: vec![], meta: vec![], docs: vec![] }
    }
    fn m(&self) -> M {
        match self {
            Self::A(x0, x1) => M::Enum("A".into(), VK::Tuple, vec![(None, x0.m()), (None, x1.m())]),
            Self::B { x: x0, y: x1, z: x2 } => M::Enum("B".into(), VK::Struct, vec![(Some("x".into()), x0.m()), (Some("y".into()), x1.m()), (Some("z".into()), x2.m())]),
            Self::C(x0) => M::Enum("C".into(), VK::Tuple, vec![(None, x0.m())]),
            Self::D { x: x0 } => M::Enum("D".into(), VK::Struct, vec![(Some("x".into()), x0.m())]),
        }
    }
    fn hidden(&self) -> Vec<u8> {
        match self {
            _ => vec![],
        }
    }
    fn vals(n: usize, d: usize) -> Vec<Self> {
        let mut per: Vec<Vec<Self>> = vec![];
        per.push({ let l0 = <() as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); let l1 = <NonZeroI16 as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); combos(&[l0.len(), l1.len()], n.max(1)).into_iter().map(|c: Vec<usize>| Self::A(l0[c[0]].dup(), l1[c[1]].dup())).collect::<Vec<Self>>() });
        per.push({ let l0 = <Vec<u8> as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); let l1 = <u8 as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); let l2 = <NonZeroI16 as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); combos(&[l0.len(), l1.len(), l2.len()], n.max(1)).into_iter().map(|c: Vec<usize>| Self::B { x: l0[c[0]].dup(), y: l1[c[1]].dup(), z: l2[c[2]].dup() }).collect::<Vec<Self>>() });
        per.push({ let l0 = <NonZeroI16 as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); combos(&[l0.len()], n.max(1)).into_iter().map(|c: Vec<usize>| Self::C(l0[c[0]].dup())).collect::<Vec<Self>>() });
        per.push({ let l0 = <NonZeroI16 as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); combos(&[l0.len()], n.max(1)).into_iter().map(|c: Vec<usize>| Self::D { x: l0[c[0]].dup() }).collect::<Vec<Self>>() });
        interleave(per, n)
    }
    fn into_v(self) -> Option<Value> { Some(self.into()) }
    fn dup(&self) -> Self {
        match self {
            Self::A(x0, x1) => Self::A(x0.dup(), x1.dup()),
            Self::B { x: x0, y: x1, z: x2 } => Self::B { x: x0.dup(), y: x1.dup(), z: x2.dup() },
            Self::C(x0) => Self::C(x0.dup()),
            Self::D { x: x0 } => Self::D { x: x0.dup() },
        }
    }
    fn dfmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        std::fmt::Debug::fmt(self, f)
    }
}

#[allow(dead_code)]
#[derive(Reflect, Clone, Debug)]
pub struct Kd14 {
    pub a: [u8; 0],
    pub b: u8,
    pub c: [u8; 2],
}
#[allow(unused_variables, unused_mut, clippy::all)]
impl Modeled for Kd14 {
    fn t() -> T {
        T::Struct { name: std::any::type_name::<Self>(), fields: vec![FieldT { name: Some("a"), ty: <[u8; 0] as Modeled>::t, with: None, meta: vec![], docs: vec![] }, FieldT { name: Some("b"), ty: <u8 as Modeled>::t, with: None, meta: vec![], docs: vec![] }, FieldT { name: Some("c"), ty: <[u8; 2] as Modeled>::t, with: None, meta: vec![], docs: vec![] }], meta: vec![], docs: vec![] }
    }
    fn m(&self) -> M {
        M::Struct(vec![("a".to_owned(), self.a.m()), ("b".to_owned(), self.b.m()), ("c".to_owned(), self.c.m())])
    }
    fn hidden(&self) -> Vec<u8> {
        vec![]
    }
    fn vals(n: usize, d: usize) -> Vec<Self> {
        let l0 = <[u8; 0] as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); let l1 = <u8 as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); let l2 = <[u8; 2] as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); combos(&[l0.len(), l1.len(), l2.len()], n.max(1)).into_iter().map(|c: Vec<usize>| Self { a: l0[c[0]].dup(), b: l1[c[1]].dup(), c: l2[c[2]].dup() }).collect::<Vec<Self>>()
    }
    fn into_v(self) -> Option<Value> { Some(self.into()) }
    fn dup(&self) -> Self {
        Self { a: self.a.dup(), b: self.b.dup(), c: self.c.dup() }
    }
    fn dfmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        std::fmt::Debug::fmt(self, f)
    }
}

#[allow(dead_code)]
#[derive(Reflect, Clone, Debug)]
pub struct KdT14(
    pub [u8; 0],
    pub [u8; 2],
    pub u8,
);
#[allow(unused_variables, unused_mut, clippy::all)]
impl Modeled for KdT14 {
    fn t() -> T {
        T::TupleStruct { name: std::any::type_name::<Self>(), fields: vec![FieldT { name: None, ty: <[u8; 0] as Modeled>::t, with: None, meta: vec![], docs: vec![] }, FieldT { name: None, ty: <[u8; 2] as Modeled>::t, with: None, meta: vec![], docs: vec![] }, FieldT { name: None, ty: <u8 as Modeled>::t, with: None, meta: vec![], docs: vec![] }], meta: vec![], docs: vec![] }
    }
    fn m(&self) -> M {
        M::TupleStruct(vec![self.0.m(), self.1.m(), self.2.m()])
    }
    fn hidden(&self) -> Vec<u8> {
        vec![]
    }
    fn vals(n: usize, d: usize) -> Vec<Self> {
        let l0 = <[u8; 0] as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); let l1 = <[u8; 2] as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); let l2 = <u8 as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); combos(&[l0.len(), l1.len(), l2.len()], n.max(1)).into_iter().map(|c: Vec<usize>| Self(l0[c[0]].dup(), l1[c[1]].dup(), l2[c[2]].dup())).collect::<Vec<Self>>()
    }
    fn into_v(self) -> Option<Value> { Some(self.into()) }
    fn dup(&self) -> Self {
        Self(self.0.dup(), self.1.dup(), self.2.dup())
    }
    fn dfmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        std::fmt::Debug::fmt(self, f)
    }
}

#[allow(dead_code)]
#[derive(Reflect, Clone, Debug)]
pub enum KdE14 {
    A(
        u8,
        [u8; 0],
    ),
    B {
        x: [u8; 2],
        y: u8,
        z: [u8; 0],
    },
    C(
        [u8; 0],
    ),
    D {
        x: [u8; 0],
    },
}
#[allow(unused_variables, unused_mut, clippy::all)]
impl Modeled for KdE14 {
    fn t() -> T {
        T::Enum { name: std::any::type_name::<Self>(), variants: vec![VariantT { name: "A", kind: VK::Tuple, fields: vec![FieldT { name: None, ty: <u8 as Modeled>::t, with: None, meta: vec![], docs: vec![] }, FieldT { name: None, ty: <[u8; 0] as Modeled>::t, with: None, meta: vec![], docs: vec![] }], meta: vec![], docs: vec![] }, VariantT { name: "B", kind: VK::Struct, fields: vec![FieldT { name: Some("x"), ty: <[u8; 2] as Modeled>::t, with: None, meta: vec![], docs: vec![] }, FieldT { name: Some("y"), ty: <u8 as Modeled>::t, with: None, meta: vec![], docs: vec![] }, FieldT { name: Some("z"), ty: <[u8; 0] as Modeled>::t, with: None, meta: vec![], docs: vec![] }], meta: vec![], docs: vec![] }, VariantT { name: "C", kind: VK::Tuple, fields: vec![FieldT { name: None, ty: <[u8; 0] as Modeled>::t, with: None, meta: vec![], docs: vec![] }], meta: vec![], docs: vec![] }, VariantT { name: "D", kind: VK::Struct, fields: vec![FieldT { name: Some("x"), ty: <[u8; 0] as Modeled>::t, with: None, meta: vec![], docs: vec![] }], meta: vec![], docs: vec![] }], skipped: vec![], meta: vec![], docs: vec![] }
    }
    fn m(&self) -> M {
        match self {
            Self::A(x0, x1) => M::Enum("A".into(), VK::Tuple, vec![(None, x0.m()), (None, x1.m())]),
            Self::B { x: x0, y: x1, z: x2 } => M::Enum("B".into(), VK::Struct, vec![(Some("x".into()), x0.m()), (Some("y".into()), x1.m()), (Some("z".into()), x2.m())]),
            Self::C(x0) => M::Enum("C".into(), VK::Tuple, vec![(None, x0.m())]),
            Self::D { x: x0 } => M::Enum("D".into(), VK::Struct, vec![(Some("x".into()), x0.m())]),
        }
    }
    fn hidden(&self) -> Vec<u8> {
        match self {
            _ => vec![],
        }
    }
    fn vals(n: usize, d: usize) -> Vec<Self> {
        let mut per: Vec<Vec<Self>> = vec![];
        per.push({ let l0 = <u8 as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); let l1 = <[u8; 0] as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); combos(&[l0.len(), l1.len()], n.max(1)).into_iter().map(|c: Vec<usize>| Self::A(l0[c[0]].dup(), l1[c[1]].dup())).collect::<Vec<Self>>() });
        per.push({ let l0 = <[u8; 2] as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); let l1 = <u8 as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); let l2 = <[u8; 0] as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); combos(&[l0.len(), l1.len(), l2.len()], n.max(1)).into_iter().map(|c: Vec<usize>| Self::B { x: l0[c[0]].dup(), y: l1[c[1]].dup(), z: l2[c[2]].dup() }).collect::<Vec<Self>>() });
        per.push({ let l0 = <[u8; 0] as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); combos(&[l0.len()], n.max(1)).into_iter().map(|c: Vec<usize>| Self::C(l0[c[0]].dup())).collect::<Vec<Self>>() });
        per.push({ let l0 = <[u8; 0] as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); combos(&[l0.len()], n.max(1)).into_iter().map(|c: Vec<usize>| Self::D { x: l0[c[0]].dup() }).collect::<Vec<Self>>() });
        interleave(per, n)
    }
    fn into_v(self) -> Option<Value> { Some(self.into()) }
    fn dup(&self) -> Self {
        match self {
            Self::A(x0, x1) => Self::A(x0.dup(), x1.dup()),
            Self::B { x: x0, y: x1, z: x2 } => Self::B { x: x0.dup(), y: x1.dup(), z: x2.dup() },
            Self::C(x0) => Self::C(x0.dup()),
            Self::D { x: x0 } => Self::D { x: x0.dup() },
        }
    }
    fn dfmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        std::fmt::Debug::fmt(self, f)
    }
}

#[allow(dead_code)]
#[derive(Reflect, Clone, Debug)]
pub struct Kd15 {
    pub a: Box<E1m0>,
    pub b: Unit,
    pub c: BTreeMap<u8, u8>,
}
#[allow(unused_variables, unused_mut, clippy::all)]
impl Modeled for Kd15 {
    fn t() -> T {
        T::Struct { name: std::any::type_name::<Self>(), fields: vec![FieldT { name: Some("a"), ty: <Box<E1m0> as Modeled>::t, with: None, meta: vec![], docs: vec![] }, FieldT { name: Some("b"), ty: <Unit as Modeled>::t, with: None, meta: vec![], docs: vec![] }, FieldT { name: Some("c"), ty: <BTreeMap<u8, u8> as Modeled>::t, with: None, meta: vec![], docs: vec![] }], meta: vec![], docs: vec![] }
    }
    fn m(&self) -> M {
        M::Struct(vec![("a".to_owned(), self.a.m()), ("b".to_owned(), self.b.m()), ("c".to_owned(), self.c.m())])
    }
    fn hidden(&self) -> Vec<u8> {
        vec![]
    }
    fn vals(n: usize, d: usize) -> Vec<Self> {
        let l0 = <Box<E1m0> as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); let l1 = <Unit as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); let l2 = <BTreeMap<u8, u8> as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); combos(&[l0.len(), l1.len(), l2.len()], n.max(1)).into_iter().map(|c: Vec<usize>| Self { a: l0[c[0]].dup(), b: l1[c[1]].dup(), c: l2[c[2]].dup() }).collect::<Vec<Self>>()
    }
    fn into_v(self) -> Option<Value> { Some(self.into()) }
    fn dup(&self) -> Self {
        Self { a: self.a.dup(), b: self.b.dup(), c: self.c.dup() }
    }
    fn dfmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        std::fmt::Debug::fmt(self, f)
    }
}

#[allow(dead_code)]
#[derive(Reflect, Clone, Debug)]
pub struct KdT15(
    pub Box<E1m0>,
    pub BTreeMap<u8, u8>,
    pub Unit,
);
#[allow(unused_variables, unused_mut, clippy::all)]
impl Modeled for KdT15 {
    fn t() -> T {
        T::TupleStruct { name: std::any::type_name::<Self>(), fields: vec![FieldT { name: None, ty: <Box<E1m0> as Modeled>::t, with: None, meta: vec![], docs: vec![] }, FieldT { name: None, ty: <BTreeMap<u8, u8> as Modeled>::t, with: None, meta: vec![], docs: vec![] }, FieldT { name: None, ty: <Unit as Modeled>::t, with: None, meta: vec![], docs: vec![] }], meta: vec![], docs: vec![] }
    }
    fn m(&self) -> M {
        M::TupleStruct(vec![self.0.m(), self.1.m(), self.2.m()])
    }
    fn hidden(&self) -> Vec<u8> {
        vec![]
    }
    fn vals(n: usize, d: usize) -> Vec<Self> {
        let l0 = <Box<E1m0> as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); let l1 = <BTreeMap<u8, u8> as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); let l2 = <Unit as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); combos(&[l0.len(), l1.len(), l2.len()], n.max(1)).into_iter().map(|c: Vec<usize>| Self(l0[c[0]].dup(), l1[c[1]].dup(), l2[c[2]].dup())).collect::<Vec<Self>>()
    }
    fn into_v(self) -> Option<Value> { Some(self.into()) }
    fn dup(&self) -> Self {
        Self(self.0.dup(), self.1.dup(), self.2.dup())
    }
    fn dfmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        std::fmt::Debug::fmt(self, f)
    }
}

#[allow(dead_code)]
#[derive(Reflect, Clone, Debug)]
pub enum KdE15 {
    A(
        Unit,
        Box<E1m0>,
    ),
    B {
        x: BTreeMap<u8, u8>,
        y: u8,
        z: Box<E1m0>,
    },
    C(
        Box<E1m0>,
    ),
    D {
        x: Box<E1m0>,
    },
}
#[allow(unused_variables, unused_mut, clippy::all)]
impl Modeled for KdE15 {
    fn t() -> T {
        T::Enum { name: std::any::type_name::<Self>(), variants: vec![VariantT { name: "A", kind: VK::Tuple, fields: vec![FieldT { name: None, ty: <Unit as Modeled>::t, with: None, meta: vec![], docs: vec![] }, FieldT { name: None, ty: <Box<E1m0> as Modeled>::t, with: None, meta: vec![], docs: vec![] }], meta: vec![], docs: vec![] }, VariantT { name: "B", kind: VK::Struct, fields: vec![FieldT { name: Some("x"), ty: <BTreeMap<u8, u8> as Modeled>::t, with: None, meta: vec![], docs: vec![] }, FieldT { name: Some("y"), ty: <u8 as Modeled>::t, with: None, meta: vec![], docs: vec![] }, FieldT { name: Some("z"), ty: <Box<E1m0> as Modeled>::t, with: None, meta: vec![], docs: vec![] }], meta: vec![], docs: vec![] }, VariantT { name: "C", kind: VK::Tuple, fields: vec![FieldT { name: None, ty: <Box<E1m0> as Modeled>::t, with: None, meta: vec![], docs: vec![] }], meta: vec![], docs: vec![] }, VariantT { name: "D", kind: VK::Struct, fields: vec![FieldT { name: Some("x"), ty: <Box<E1m0> as Modeled>::t, with: None, meta: vec![], docs: vec![] }], meta: vec![], docs: vec![] }], skipped: vec![], meta: vec![], docs: vec![] }
    }
    fn m(&self) -> M {
        match self {
            Self::A(x0, x1) => M::Enum("A".into(), VK::Tuple, vec![(None, x0.m()), (None, x1.m())]),
            Self::B { x: x0, y: x1, z: x2 } => M::Enum("B".into(), VK::Struct, vec![(Some("x".into()), x0.m()), (Some("y".into()), x1.m()), (Some("z".into()), x2.m())]),
            Self::C(x0) => M::Enum("C".into(), VK::Tuple, vec![(None, x0.m())]),
            Self::D { x: x0 } => M::Enum("D".into(), VK::Struct, vec![(Some("x".into()), x0.m())]),
        }
    }
    fn hidden(&self) -> Vec<u8> {
        match self {
            _ => vec![],
        }
    }
    fn vals(n: usize, d: usize) -> Vec<Self> {
        let mut per: Vec<Vec<Self>> = vec![];
        per.push({ let l0 = <Unit as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); let l1 = <Box<E1m0> as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); combos(&[l0.len(), l1.len()], n.max(1)).into_iter().map(|c: Vec<usize>| Self::A(l0[c[0]].dup(), l1[c[1]].dup())).collect::<Vec<Self>>() });
        per.push({ let l0 = <BTreeMap<u8, u8> as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); let l1 = <u8 as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); let l2 = <Box<E1m0> as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); combos(&[l0.len(), l1.len(), l2.len()], n.max(1)).into_iter().map(|c: Vec<usize>| Self::B { x: l0[c[0]].dup(), y: l1[c[1]].dup(), z: l2[c[2]].dup() }).collect::<Vec<Self>>() });
        per.push({ let l0 = <Box<E1m0> as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); combos(&[l0.len()], n.max(1)).into_iter().map(|c: Vec<usize>| Self::C(l0[c[0]].dup())).collect::<Vec<Self>>() });
        per.push({ let l0 = <Box<E1m0> as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); combos(&[l0.len()], n.max(1)).into_iter().map(|c: Vec<usize>| Self::D { x: l0[c[0]].dup() }).collect::<Vec<Self>>() });
        interleave(per, n)
    }
    fn into_v(self) -> Option<Value> { Some(self.into()) }
    fn dup(&self) -> Self {
        match self {
            Self::A(x0, x1) => Self::A(x0.dup(), x1.dup()),
            Self::B { x: x0, y: x1, z: x2 } => Self::B { x: x0.dup(), y: x1.dup(), z: x2.dup() },
            Self::C(x0) => Self::C(x0.dup()),
            Self::D { x: x0 } => Self::D { x: x0.dup() },
        }
    }
    fn dfmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        std::fmt::Debug::fmt(self, f)
    }
}

#[allow(dead_code)]
#[derive(Reflect, Clone, Debug)]
pub struct Df0 {
    pub a: NonZeroU8,
}
#[allow(unused_variables, unused_mut, clippy::all)]
impl Modeled for Df0 {
    fn t() -> T {
        T::Struct { name: std::any::type_name::<Self>(), fields: vec![FieldT { name: Some("a"), ty: <NonZeroU8 as Modeled>::t, with: None, meta: vec![], docs: vec![] }], meta: vec![], docs: vec![] }
    }
    fn m(&self) -> M {
        M::Struct(vec![("a".to_owned(), self.a.m())])
    }
    fn hidden(&self) -> Vec<u8> {
        vec![]
    }
    fn vals(n: usize, d: usize) -> Vec<Self> {
        let l0 = <NonZeroU8 as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); combos(&[l0.len()], n.max(1)).into_iter().map(|c: Vec<usize>| Self { a: l0[c[0]].dup() }).collect::<Vec<Self>>()
    }
    fn into_v(self) -> Option<Value> { Some(self.into()) }
    fn dup(&self) -> Self {
        Self { a: self.a.dup() }
    }
    fn dfmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        std::fmt::Debug::fmt(self, f)
    }
}

#[allow(dead_code)]
#[derive(Reflect, Clone, Debug)]
pub struct DfT0(
    pub NonZeroU8,
);
#[allow(unused_variables, unused_mut, clippy::all)]
impl Modeled for DfT0 {
    fn t() -> T {
        T::TupleStruct { name: std::any::type_name::<Self>(), fields: vec![FieldT { name: None, ty: <NonZeroU8 as Modeled>::t, with: None, meta: vec![], docs: vec![] }], meta: vec![], docs: vec![] }
    }
    fn m(&self) -> M {
        M::TupleStruct(vec![self.0.m()])
    }
    fn hidden(&self) -> Vec<u8> {
        vec![]
    }
    fn vals(n: usize, d: usize) -> Vec<Self> {
        let l0 = <NonZeroU8 as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); combos(&[l0.len()], n.max(1)).into_iter().map(|c: Vec<usize>| Self(l0[c[0]].dup())).collect::<Vec<Self>>()
    }
    fn into_v(self) -> Option<Value> { Some(self.into()) }
    fn dup(&self) -> Self {
        Self(self.0.dup())
    }
    fn dfmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        std::fmt::Debug::fmt(self, f)
    }
}

#[allow(dead_code)]
#[derive(Reflect, Clone, Debug)]
pub enum DfE0 {
    A(
        NonZeroU8,
    ),
    B,
}
#[allow(unused_variables, unused_mut, clippy::all)]
impl Modeled for DfE0 {
    fn t() -> T {
        T::Enum { name: std::any::type_name::<Self>(), variants: vec![VariantT { name: "A", kind: VK::Tuple, fields: vec![FieldT { name: None, ty: <NonZeroU8 as Modeled>::t, with: None, meta: vec![], docs: vec![] }], meta: vec![], docs: vec![] }, VariantT { name: "B", kind: VK::Unit, fields: vec![], meta: vec![], docs: vec![] }], skipped: vec![], meta: vec![], docs: vec![] }
    }
    fn m(&self) -> M {
        match self {
            Self::A(x0) => M::Enum("A".into(), VK::Tuple, vec![(None, x0.m())]),
            Self::B => M::Enum("B".into(), VK::Unit, vec![]),
        }
    }
    fn hidden(&self) -> Vec<u8> {
        match self {
            _ => vec![],
        }
    }
    fn vals(n: usize, d: usize) -> Vec<Self> {
        let mut per: Vec<Vec<Self>> = vec![];
        per.push({ let l0 = <NonZeroU8 as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); combos(&[l0.len()], n.max(1)).into_iter().map(|c: Vec<usize>| Self::A(l0[c[0]].dup())).collect::<Vec<Self>>() });
        per.push(vec![Self::B]);
        interleave(per, n)
    }
    fn into_v(self) -> Option<Value> { Some(self.into()) }
    fn dup(&self) -> Self {
        match self {
            Self::A(x0) => Self::A(x0.dup()),
            Self::B => Self::B,
        }
    }
    fn dfmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        std::fmt::Debug::fmt(self, f)
    }
}

#[allow(dead_code)]
#[derive(Reflect, Clone, Debug)]
pub enum DfS0 {
    A {
        a: NonZeroU8,
    },
    B,
}
#[allow(unused_variables, unused_mut, clippy::all)]
impl Modeled for DfS0 {
    fn t() -> T {
        T::Enum { name: std::any::type_name::<Self>(), variants: vec![VariantT { name: "A", kind: VK::Struct, fields: vec![FieldT { name: Some("a"), ty: <NonZeroU8 as Modeled>::t, with: None, meta: vec![], docs: vec![] }], meta: vec![], docs: vec![] }, VariantT { name: "B", kind: VK::Unit, fields: vec![], meta: vec![], docs: vec![] }], skipped: vec![], meta: vec![], docs: vec![] }
    }
    fn m(&self) -> M {
        match self {
            Self::A { a: x0 } => M::Enum("A".into(), VK::Struct, vec![(Some("a".into()), x0.m())]),
            Self::B => M::Enum("B".into(), VK::Unit, vec![]),
        }
    }
    fn hidden(&self) -> Vec<u8> {
        match self {
            _ => vec![],
        }
    }
    fn vals(n: usize, d: usize) -> Vec<Self> {
        let mut per: Vec<Vec<Self>> = vec![];
        per.push({ let l0 = <NonZeroU8 as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); combos(&[l0.len()], n.max(1)).into_iter().map(|c: Vec<usize>| Self::A { a: l0[c[0]].dup() }).collect::<Vec<Self>>() });
        per.push(vec![Self::B]);
        interleave(per, n)
    }
    fn into_v(self) -> Option<Value> { Some(self.into()) }
    fn dup(&self) -> Self {
        match self {
            Self::A { a: x0 } => Self::A { a: x0.dup() },
            Self::B => Self::B,
        }
    }
    fn dfmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        std::fmt::Debug::fmt(self, f)
    }
}

#[allow(dead_code)]
#[derive(Reflect, Clone, Debug)]
pub struct DfK0 {
    #[reflect(skip)] pub a: Hid,
}
#[allow(unused_variables, unused_mut, clippy::all)]
impl Modeled for DfK0 {
    fn t() -> T {
        T::Struct { name: std::any::type_name::<Self>(), fields: vec![], meta: vec![], docs: vec![] }
    }
    fn m(&self) -> M {
        M::Struct(vec![])
    }
    fn hidden(&self) -> Vec<u8> {
        vec![self.a.0]
    }
    fn vals(n: usize, d: usize) -> Vec<Self> {
         combos(&[], n.max(1)).into_iter().map(|c: Vec<usize>| Self { a: Hid(1) }).collect::<Vec<Self>>()
    }
    fn into_v(self) -> Option<Value> { Some(self.into()) }
    fn dup(&self) -> Self {
        Self { a: Hid(self.a.0) }
    }
    fn dfmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        std::fmt::Debug::fmt(self, f)
    }
}

#[allow(dead_code)]
#[derive(Reflect, Clone, Debug)]
pub struct Df1 {
    pub a: u8,
}
#[allow(unused_variables, unused_mut, clippy::all)]
impl Modeled for Df1 {
    fn t() -> T {
        T::Struct { name: std::any::type_name::<Self>(), fields: vec![FieldT { name: Some("a"), ty: <u8 as Modeled>::t, with: None, meta: vec![], docs: vec![] }], meta: vec![], docs: vec![] }
    }
    fn m(&self) -> M {
        M::Struct(vec![("a".to_owned(), self.a.m())])
    }
    fn hidden(&self) -> Vec<u8> {
        vec![]
    }
    fn vals(n: usize, d: usize) -> Vec<Self> {
        let l0 = <u8 as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); combos(&[l0.len()], n.max(1)).into_iter().map(|c: Vec<usize>| Self { a: l0[c[0]].dup() }).collect::<Vec<Self>>()
    }
    fn into_v(self) -> Option<Value> { Some(self.into()) }
    fn dup(&self) -> Self {
        Self { a: self.a.dup() }
    }
    fn dfmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        std::fmt::Debug::fmt(self, f)
    }
}

#[allow(dead_code)]
#[derive(Reflect, Clone, Debug)]
pub struct DfT1(
    pub u8,
);
#[allow(unused_variables, unused_mut, clippy::all)]
impl Modeled for DfT1 {
    fn t() -> T {
        T::TupleStruct { name: std::any::type_name::<Self>(), fields: vec![FieldT { name: None, ty: <u8 as Modeled>::t, with: None, meta: vec![], docs: vec![] }], meta: vec![], docs: vec![] }
    }
    fn m(&self) -> M {
        M::TupleStruct(vec![self.0.m()])
    }
    fn hidden(&self) -> Vec<u8> {
        vec![]
    }
    fn vals(n: usize, d: usize) -> Vec<Self> {
        let l0 = <u8 as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); combos(&[l0.len()], n.max(1)).into_iter().map(|c: Vec<usize>| Self(l0[c[0]].dup())).collect::<Vec<Self>>()
    }
    fn into_v(self) -> Option<Value> { Some(self.into()) }
    fn dup(&self) -> Self {
        Self(self.0.dup())
    }
    fn dfmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        std::fmt::Debug::fmt(self, f)
    }
}

#[allow(dead_code)]
#[derive(Reflect, Clone, Debug)]
pub enum DfE1 {
    A(
        u8,
    ),
    B,
}
#[allow(unused_variables, unused_mut, clippy::all)]
impl Modeled for DfE1 {
    fn t() -> T {
        T::Enum { name: std::any::type_name::<Self>(), variants: vec![VariantT { name: "A", kind: VK::Tuple, fields: vec![FieldT { name: None, ty: <u8 as Modeled>::t, with: None, meta: vec![], docs: vec![] }], meta: vec![], docs: vec![] }, VariantT { name: "B", kind: VK::Unit, fields: vec![], meta: vec![], docs: vec![] }], skipped: vec![], meta: vec![], docs: vec![] }
    }
    fn m(&self) -> M {
        match self {
            Self::A(x0) => M::Enum("A".into(), VK::Tuple, vec![(None, x0.m())]),
            Self::B => M::Enum("B".into(), VK::Unit, vec![]),
        }
    }
    fn hidden(&self) -> Vec<u8> {
        match self {
            _ => vec![],
        }
    }
    fn vals(n: usize, d: usize) -> Vec<Self> {
        let mut per: Vec<Vec<Self>> = vec![];
        per.push({ let l0 = <u8 as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); combos(&[l0.len()], n.max(1)).into_iter().map(|c: Vec<usize>| Self::A(l0[c[0]].dup())).collect::<Vec<Self>>() });
        per.push(vec![Self::B]);
        interleave(per, n)
    }
    fn into_v(self) -> Option<Value> { Some(self.into()) }
    fn dup(&self) -> Self {
        match self {
            Self::A(x0) => Self::A(x0.dup()),
            Self::B => Self::B,
        }
    }
    fn dfmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        std::fmt::Debug::fmt(self, f)
    }
}

#[allow(dead_code)]
#[derive(Reflect, Clone, Debug)]
pub enum DfS1 {
    A {
        a: u8,
    },
    B,
}
#[allow(unused_variables, unused_mut, clippy::all)]
impl Modeled for DfS1 {
    fn t() -> T {
        T::Enum { name: std::any::type_name::<Self>(), variants: vec![VariantT { name: "A", kind: VK::Struct, fields: vec![FieldT { name: Some("a"), ty: <u8 as Modeled>::t, with: None, meta: vec![], docs: vec![] }], meta: vec![], docs: vec![] }, VariantT { name: "B", kind: VK::Unit, fields: vec![], meta: vec![], docs: vec![] }], skipped: vec![], meta: vec![], docs: vec![] }
    }
    fn m(&self) -> M {
        match self {
            Self::A { a: x0 } => M::Enum("A".into(), VK::Struct, vec![(Some("a".into()), x0.m())]),
            Self::B => M::Enum("B".into(), VK::Unit, vec![]),
        }
    }
    fn hidden(&self) -> Vec<u8> {
        match self {
            _ => vec![],
        }
    }
    fn vals(n: usize, d: usize) -> Vec<Self> {
        let mut per: Vec<Vec<Self>> = vec![];
        per.push({ let l0 = <u8 as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); combos(&[l0.len()], n.max(1)).into_iter().map(|c: Vec<usize>| Self::A { a: l0[c[0]].dup() }).collect::<Vec<Self>>() });
        per.push(vec![Self::B]);
        interleave(per, n)
    }
    fn into_v(self) -> Option<Value> { Some(self.into()) }
    fn dup(&self) -> Self {
        match self {
            Self::A { a: x0 } => Self::A { a: x0.dup() },
            Self::B => Self::B,
        }
    }
    fn dfmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        std::fmt::Debug::fmt(self, f)
    }
}

#[allow(dead_code)]
#[derive(Reflect, Clone, Debug)]
pub struct DfK1 {
    pub a: u8,
}
#[allow(unused_variables, unused_mut, clippy::all)]
impl Modeled for DfK1 {
    fn t() -> T {
        T::Struct { name: std::any::type_name::<Self>(), fields: vec![FieldT { name: Some("a"), ty: <u8 as Modeled>::t, with: None, meta: vec![], docs: vec![] }], meta: vec![], docs: vec![] }
    }
    fn m(&self) -> M {
        M::Struct(vec![("a".to_owned(), self.a.m())])
    }
    fn hidden(&self) -> Vec<u8> {
        vec![]
    }
    fn vals(n: usize, d: usize) -> Vec<Self> {
        let l0 = <u8 as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); combos(&[l0.len()], n.max(1)).into_iter().map(|c: Vec<usize>| Self { a: l0[c[0]].dup() }).collect::<Vec<Self>>()
    }
    fn into_v(self) -> Option<Value> { Some(self.into()) }
    fn dup(&self) -> Self {
        Self { a: self.a.dup() }
    }
    fn dfmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        std::fmt::Debug::fmt(self, f)
    }
}

#[allow(dead_code)]
#[derive(Reflect, Clone, Debug)]
pub struct Df00 {
    pub a: NonZeroU8,
    pub b: NonZeroU8,
}
#[allow(unused_variables, unused_mut, clippy::all)]
impl Modeled for Df00 {
    fn t() -> T {
        T::Struct { name: std::any::type_name::<Self>(), fields: vec![FieldT { name: Some("a"), ty: <NonZeroU8 as Modeled>::t, with: None, meta: vec![], docs: vec![] }, FieldT { name: Some("b"), ty: <NonZeroU8 as Modeled>::t, with: None, meta: vec![], docs: vec![] }], meta: vec![], docs: vec![] }
    }
    fn m(&self) -> M {
        M::Struct(vec![("a".to_owned(), self.a.m()), ("b".to_owned(), self.b.m())])
    }
    fn hidden(&self) -> Vec<u8> {
        vec![]
    }
    fn vals(n: usize, d: usize) -> Vec<Self> {
        let l0 = <NonZeroU8 as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); let l1 = <NonZeroU8 as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); combos(&[l0.len(), l1.len()], n.max(1)).into_iter().map(|c: Vec<usize>| Self { a: l0[c[0]].dup(), b: l1[c[1]].dup() }).collect::<Vec<Self>>()
    }
    fn into_v(self) -> Option<Value> { Some(self.into()) }
    fn dup(&self) -> Self {
        Self { a: self.a.dup(), b: self.b.dup() }
    }
    fn dfmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        std::fmt::Debug::fmt(self, f)
    }
}

#[allow(dead_code)]
#[derive(Reflect, Clone, Debug)]
pub struct DfT00(
    pub NonZeroU8,
    pub NonZeroU8,
);
#[allow(unused_variables, unused_mut, clippy::all)]
impl Modeled for DfT00 {
    fn t() -> T {
        T::TupleStruct { name: std::any::type_name::<Self>(), fields: vec![FieldT { name: None, ty: <NonZeroU8 as Modeled>::t, with: None, meta: vec![], docs: vec![] }, FieldT { name: None, ty: <NonZeroU8 as Modeled>::t, with: None, meta: vec![], docs: vec![] }], meta: vec![], docs: vec![] }
    }
    fn m(&self) -> M {
        M::TupleStruct(vec![self.0.m(), self.1.m()])
    }
    fn hidden(&self) -> Vec<u8> {
        vec![]
    }
    fn vals(n: usize, d: usize) -> Vec<Self> {
        let l0 = <NonZeroU8 as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); let l1 = <NonZeroU8 as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); combos(&[l0.len(), l1.len()], n.max(1)).into_iter().map(|c: Vec<usize>| Self(l0[c[0]].dup(), l1[c[1]].dup())).collect::<Vec<Self>>()
    }
    fn into_v(self) -> Option<Value> { Some(self.into()) }
    fn dup(&self) -> Self {
        Self(self.0.dup(), self.1.dup())
    }
    fn dfmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        std::fmt::Debug::fmt(self, f)
    }
}

#[allow(dead_code)]
#[derive(Reflect, Clone, Debug)]
pub enum DfE00 {
    A(
        NonZeroU8,
        NonZeroU8,
    ),
    B,
}
#[allow(unused_variables, unused_mut, clippy::all)]
impl Modeled for DfE00 {
    fn t() -> T {
        T::Enum { name: std::any::type_name::<Self>(), variants: vec![VariantT { name: "A", kind: VK::Tuple, fields: vec![FieldT { name: None, ty: <NonZeroU8 as Modeled>::t, with: None, meta: vec![], docs: vec![] }, FieldT { name: None, ty: <NonZeroU8 as Modeled>::t, with: None, meta: vec![], docs: vec![] }], meta: vec![], docs: vec![] }, VariantT { name: "B", kind: VK::Unit, fields: vec![], meta: vec![], docs: vec![] }], skipped: vec![], meta: vec![], docs: vec![] }
    }
    fn m(&self) -> M {
        match self {
            Self::A(x0, x1) => M::Enum("A".into(), VK::Tuple, vec![(None, x0.m()), (None, x1.m())]),
            Self::B => M::Enum("B".into(), VK::Unit, vec![]),
        }
    }
    fn hidden(&self) -> Vec<u8> {
        match self {
            _ => vec![],
        }
    }
    fn vals(n: usize, d: usize) -> Vec<Self> {
        let mut per: Vec<Vec<Self>> = vec![];
        per.push({ let l0 = <NonZeroU8 as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); let l1 = <NonZeroU8 as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); combos(&[l0.len(), l1.len()], n.max(1)).into_iter().map(|c: Vec<usize>| Self::A(l0[c[0]].dup(), l1[c[1]].dup())).collect::<Vec<Self>>() });
        per.push(vec![Self::B]);
        interleave(per, n)
    }
    fn into_v(self) -> Option<Value> { Some(self.into()) }
    fn dup(&self) -> Self {
        match self {
            Self::A(x0, x1) => Self::A(x0.dup(), x1.dup()),
            Self::B => Self::B,
        }
    }
    fn dfmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        std::fmt::Debug::fmt(self, f)
    }
}

#[allow(dead_code)]
#[derive(Reflect, Clone, Debug)]
pub enum DfS00 {
    A {
        a: NonZeroU8,
        b: NonZeroU8,
    },
    B,
}
#[allow(unused_variables, unused_mut, clippy::all)]
impl Modeled for DfS00 {
    fn t() -> T {
        T::Enum { name: std::any::type_name::<Self>(), variants: vec![VariantT { name: "A", kind: VK::Struct, fields: vec![FieldT { name: Some("a"), ty: <NonZeroU8 as Modeled>::t, with: None, meta: vec![], docs: vec![] }, FieldT { name: Some("b"), ty: <NonZeroU8 as Modeled>::t, with: None, meta: vec![], docs: vec![] }], meta: vec![], docs: vec![] }, VariantT { name: "B", kind: VK::Unit, fields: vec![], meta: vec![], docs: vec![] }], skipped: vec![], meta: vec![], docs: vec![] }
    }
    fn m(&self) -> M {
        match self {
            Self::A { a: x0, b: x1 } => M::Enum("A".into(), VK::Struct, vec![(Some("a".into()), x0.m()), (Some("b".into()), x1.m())]),
            Self::B => M::Enum("B".into(), VK::Unit, vec![]),
        }
    }
    fn hidden(&self) -> Vec<u8> {
        match self {
            _ => vec![],
        }
    }
    fn vals(n: usize, d: usize) -> Vec<Self> {
        let mut per: Vec<Vec<Self>> = vec![];
        per.push({ let l0 = <NonZeroU8 as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); let l1 = <NonZeroU8 as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); combos(&[l0.len(), l1.len()], n.max(1)).into_iter().map(|c: Vec<usize>| Self::A { a: l0[c[0]].dup(), b: l1[c[1]].dup() }).collect::<Vec<Self>>() });
        per.push(vec![Self::B]);
        interleave(per, n)
    }
    fn into_v(self) -> Option<Value> { Some(self.into()) }
    fn dup(&self) -> Self {
        match self {
            Self::A { a: x0, b: x1 } => Self::A { a: x0.dup(), b: x1.dup() },
            Self::B => Self::B,
        }
    }
    fn dfmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        std::fmt::Debug::fmt(self, f)
    }
}

#[allow(dead_code)]
#[derive(Reflect, Clone, Debug)]
pub struct DfK00 {
    #[reflect(skip)] pub a: Hid,
    #[reflect(skip)] pub b: Hid,
}
#[allow(unused_variables, unused_mut, clippy::all)]
impl Modeled for DfK00 {
    fn t() -> T {
        T::Struct { name: std::any::type_name::<Self>(), fields: vec![], meta: vec![], docs: vec![] }
    }
    fn m(&self) -> M {
        M::Struct(vec![])
    }
    fn hidden(&self) -> Vec<u8> {
        vec![self.a.0, self.b.0]
    }
    fn vals(n: usize, d: usize) -> Vec<Self> {
         combos(&[], n.max(1)).into_iter().map(|c: Vec<usize>| Self { a: Hid(1), b: Hid(2) }).collect::<Vec<Self>>()
    }
    fn into_v(self) -> Option<Value> { Some(self.into()) }
    fn dup(&self) -> Self {
        Self { a: Hid(self.a.0), b: Hid(self.b.0) }
    }
    fn dfmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        std::fmt::Debug::fmt(self, f)
    }
}

#[allow(dead_code)]
#[derive(Reflect, Clone, Debug)]
pub struct Df01 {
    pub a: NonZeroU8,
    pub b: u8,
}
#[allow(unused_variables, unused_mut, clippy::all)]
impl Modeled for Df01 {
    fn t() -> T {
        T::Struct { name: std::any::type_name::<Self>(), fields: vec![FieldT { name: Some("a"), ty: <NonZeroU8 as Modeled>::t, with: None, meta: vec![], docs: vec![] }, FieldT { name: Some("b"), ty: <u8 as Modeled>::t, with: None, meta: vec![], docs: vec![] }], meta: vec![], docs: vec![] }
    }
    fn m(&self) -> M {
        M::Struct(vec![("a".to_owned(), self.a.m()), ("b".to_owned(), self.b.m())])
    }
    fn hidden(&self) -> Vec<u8> {
        vec![]
    }
    fn vals(n: usize, d: usize) -> Vec<Self> {
        let l0 = <NonZeroU8 as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); let l1 = <u8 as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); combos(&[l0.len(), l1.len()], n.max(1)).into_iter().map(|c: Vec<usize>| Self { a: l0[c[0]].dup(), b: l1[c[1]].dup() }).collect::<Vec<Self>>()
    }
    fn into_v(self) -> Option<Value> { Some(self.into()) }
    fn dup(&self) -> Self {
        Self { a: self.a.dup(), b: self.b.dup() }
    }
    fn dfmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        std::fmt::Debug::fmt(self, f)
    }
}

#[allow(dead_code)]
#[derive(Reflect, Clone, Debug)]
pub struct DfT01(
    pub NonZeroU8,
    pub u8,
);
#[allow(unused_variables, unused_mut, clippy::all)]
impl Modeled for DfT01 {
    fn t() -> T {
        T::TupleStruct { name: std::any::type_name::<Self>(), fields: vec![FieldT { name: None, ty: <NonZeroU8 as Modeled>::t, with: None, meta: vec![], docs: vec![] }, FieldT { name: None, ty: <u8 as Modeled>::t, with: None, meta: vec![], docs: vec![] }], meta: vec![], docs: vec![] }
    }
    fn m(&self) -> M {
        M::TupleStruct(vec![self.0.m(), self.1.m()])
    }
    fn hidden(&self) -> Vec<u8> {
        vec![]
    }
    fn vals(n: usize, d: usize) -> Vec<Self> {
        let l0 = <NonZeroU8 as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); let l1 = <u8 as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); combos(&[l0.len(), l1.len()], n.max(1)).into_iter().map(|c: Vec<usize>| Self(l0[c[0]].dup(), l1[c[1]].dup())).collect::<Vec<Self>>()
    }
    fn into_v(self) -> Option<Value> { Some(self.into()) }
    fn dup(&self) -> Self {
        Self(self.0.dup(), self.1.dup())
    }
    fn dfmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        std::fmt::Debug::fmt(self, f)
    }
}

#[allow(dead_code)]
#[derive(Reflect, Clone, Debug)]
pub enum DfE01 {
    A(
        NonZeroU8,
        u8,
    ),
    B,
}
#[allow(unused_variables, unused_mut, clippy::all)]
impl Modeled for DfE01 {
    fn t() -> T {
        T::Enum { name: std::any::type_name::<Self>(), variants: vec![VariantT { name: "A", kind: VK::Tuple, fields: vec![FieldT { name: None, ty: <NonZeroU8 as Modeled>::t, with: None, meta: vec![], docs: vec![] }, FieldT { name: None, ty: <u8 as Modeled>::t, with: None, meta: vec![], docs: vec![] }], meta: vec![], docs: vec![] }, VariantT { name: "B", kind: VK::Unit, fields: vec![], meta: vec![], docs: vec![] }], skipped: vec![], meta: vec![], docs: vec![] }
    }
    fn m(&self) -> M {
        match self {
            Self::A(x0, x1) => M::Enum("A".into(), VK::Tuple, vec![(None, x0.m()), (None, x1.m())]),
            Self::B => M::Enum("B".into(), VK::Unit, vec![]),
        }
    }
    fn hidden(&self) -> Vec<u8> {
        match self {
            _ => vec![],
        }
    }
    fn vals(n: usize, d: usize) -> Vec<Self> {
        let mut per: Vec<Vec<Self>> = vec![];
        per.push({ let l0 = <NonZeroU8 as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); let l1 = <u8 as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); combos(&[l0.len(), l1.len()], n.max(1)).into_iter().map(|c: Vec<usize>| Self::A(l0[c[0]].dup(), l1[c[1]].dup())).collect::<Vec<Self>>() });
        per.push(vec![Self::B]);
        interleave(per, n)
    }
    fn into_v(self) -> Option<Value> { Some(self.into()) }
    fn dup(&self) -> Self {
        match self {
            Self::A(x0, x1) => Self::A(x0.dup(), x1.dup()),
            Self::B => Self::B,
        }
    }
    fn dfmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        std::fmt::Debug::fmt(self, f)
    }
}

#[allow(dead_code)]
#[derive(Reflect, Clone, Debug)]
pub enum DfS01 {
    A {
        a: NonZeroU8,
        b: u8,
    },
    B,
}
#[allow(unused_variables, unused_mut, clippy::all)]
impl Modeled for DfS01 {
    fn t() -> T {
        T::Enum { name: std::any::type_name::<Self>(), variants: vec![VariantT { name: "A", kind: VK::Struct, fields: vec![FieldT { name: Some("a"), ty: <NonZeroU8 as Modeled>::t, with: None, meta: vec![], docs: vec![] }, FieldT { name: Some("b"), ty: <u8 as Modeled>::t, with: None, meta: vec![], docs: vec![] }], meta: vec![], docs: vec![] }, VariantT { name: "B", kind: VK::Unit, fields: vec![], meta: vec![], docs: vec![] }], skipped: vec![], meta: vec![], docs: vec![] }
    }
    fn m(&self) -> M {
        match self {
            Self::A { a: x0, b: x1 } => M::Enum("A".into(), VK::Struct, vec![(Some("a".into()), x0.m()), (Some("b".into()), x1.m())]),
            Self::B => M::Enum("B".into(), VK::Unit, vec![]),
        }
    }
    fn hidden(&self) -> Vec<u8> {
        match self {
            _ => vec![],
        }
    }
    fn vals(n: usize, d: usize) -> Vec<Self> {
        let mut per: Vec<Vec<Self>> = vec![];
        per.push({ let l0 = <NonZeroU8 as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); let l1 = <u8 as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); combos(&[l0.len(), l1.len()], n.max(1)).into_iter().map(|c: Vec<usize>| Self::A { a: l0[c[0]].dup(), b: l1[c[1]].dup() }).collect::<Vec<Self>>() });
        per.push(vec![Self::B]);
        interleave(per, n)
    }
    fn into_v(self) -> Option<Value> { Some(self.into()) }
    fn dup(&self) -> Self {
        match self {
            Self::A { a: x0, b: x1 } => Self::A { a: x0.dup(), b: x1.dup() },
            Self::B => Self::B,
        }
    }
    fn dfmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        std::fmt::Debug::fmt(self, f)
    }
}

#[allow(dead_code)]
#[derive(Reflect, Clone, Debug)]
pub struct DfK01 {
    #[reflect(skip)] pub a: Hid,
    pub b: u8,
}
#[allow(unused_variables, unused_mut, clippy::all)]
impl Modeled for DfK01 {
    fn t() -> T {
        T::Struct { name: std::any::type_name::<Self>(), fields: vec![FieldT { name: Some("b"), ty: <u8 as Modeled>::t, with: None, meta: vec![], docs: vec![] }], meta: vec![], docs: vec![] }
    }
    fn m(&self) -> M {
        M::Struct(vec![("b".to_owned(), self.b.m())])
    }
    fn hidden(&self) -> Vec<u8> {
        vec![self.a.0]
    }
    fn vals(n: usize, d: usize) -> Vec<Self> {
        let l1 = <u8 as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); combos(&[l1.len()], n.max(1)).into_iter().map(|c: Vec<usize>| Self { a: Hid(1), b: l1[c[0]].dup() }).collect::<Vec<Self>>()
    }
    fn into_v(self) -> Option<Value> { Some(self.into()) }
    fn dup(&self) -> Self {
        Self { a: Hid(self.a.0), b: self.b.dup() }
    }
    fn dfmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        std::fmt::Debug::fmt(self, f)
    }
}

#[allow(dead_code)]
#[derive(Reflect, Clone, Debug)]
pub struct Df10 {
    pub a: u8,
    pub b: NonZeroU8,
}
#[allow(unused_variables, unused_mut, clippy::all)]
impl Modeled for Df10 {
    fn t() -> T {
        T::Struct { name: std::any::type_name::<Self>(), fields: vec![FieldT { name: Some("a"), ty: <u8 as Modeled>::t, with: None, meta: vec![], docs: vec![] }, FieldT { name: Some("b"), ty: <NonZeroU8 as Modeled>::t, with: None, meta: vec![], docs: vec![] }], meta: vec![], docs: vec![] }
    }
    fn m(&self) -> M {
        M::Struct(vec![("a".to_owned(), self.a.m()), ("b".to_owned(), self.b.m())])
    }
    fn hidden(&self) -> Vec<u8> {
        vec![]
    }
    fn vals(n: usize, d: usize) -> Vec<Self> {
        let l0 = <u8 as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); let l1 = <NonZeroU8 as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); combos(&[l0.len(), l1.len()], n.max(1)).into_iter().map(|c: Vec<usize>| Self { a: l0[c[0]].dup(), b: l1[c[1]].dup() }).collect::<Vec<Self>>()
    }
    fn into_v(self) -> Option<Value> { Some(self.into()) }
    fn dup(&self) -> Self {
        Self { a: self.a.dup(), b: self.b.dup() }
    }
    fn dfmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        std::fmt::Debug::fmt(self, f)
    }
}

#[allow(dead_code)]
#[derive(Reflect, Clone, Debug)]
pub struct DfT10(
    pub u8,
    pub NonZeroU8,
);
#[allow(unused_variables, unused_mut, clippy::all)]
impl Modeled for DfT10 {
    fn t() -> T {
        T::TupleStruct { name: std::any::type_name::<Self>(), fields: vec![FieldT { name: None, ty: <u8 as Modeled>::t, with: None, meta: vec![], docs: vec![] }, FieldT { name: None, ty: <NonZeroU8 as Modeled>::t, with: None, meta: vec![], docs: vec![] }], meta: vec![], docs: vec![] }
    }
    fn m(&self) -> M {
        M::TupleStruct(vec![self.0.m(), self.1.m()])
    }
    fn hidden(&self) -> Vec<u8> {
        vec![]
    }
    fn vals(n: usize, d: usize) -> Vec<Self> {
        let l0 = <u8 as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); let l1 = <NonZeroU8 as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); combos(&[l0.len(), l1.len()], n.max(1)).into_iter().map(|c: Vec<usize>| Self(l0[c[0]].dup(), l1[c[1]].dup())).collect::<Vec<Self>>()
    }
    fn into_v(self) -> Option<Value> { Some(self.into()) }
    fn dup(&self) -> Self {
        Self(self.0.dup(), self.1.dup())
    }
    fn dfmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        std::fmt::Debug::fmt(self, f)
    }
}

#[allow(dead_code)]
#[derive(Reflect, Clone, Debug)]
pub enum DfE10 {
    A(
        u8,
        NonZeroU8,
    ),
    B,
}
#[allow(unused_variables, unused_mut, clippy::all)]
impl Modeled for DfE10 {
    fn t() -> T {
        T::Enum { name: std::any::type_name::<Self>(), variants: vec![VariantT { name: "A", kind: VK::Tuple, fields: vec![FieldT { name: None, ty: <u8 as Modeled>::t, with: None, meta: vec![], docs: vec![] }, FieldT { name: None, ty: <NonZeroU8 as Modeled>::t, with: None, meta: vec![], docs: vec![] }], meta: vec![], docs: vec![] }, VariantT { name: "B", kind: VK::Unit, fields: vec![], meta: vec![], docs: vec![] }], skipped: vec![], meta: vec![], docs: vec![] }
    }
    fn m(&self) -> M {
        match self {
            Self::A(x0, x1) => M::Enum("A".into(), VK::Tuple, vec![(None, x0.m()), (None, x1.m())]),
            Self::B => M::Enum("B".into(), VK::Unit, vec![]),
        }
    }
    fn hidden(&self) -> Vec<u8> {
        match self {
            _ => vec![],
        }
    }
    fn vals(n: usize, d: usize) -> Vec<Self> {
        let mut per: Vec<Vec<Self>> = vec![];
        per.push({ let l0 = <u8 as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); let l1 = <NonZeroU8 as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); combos(&[l0.len(), l1.len()], n.max(1)).into_iter().map(|c: Vec<usize>| Self::A(l0[c[0]].dup(), l1[c[1]].dup())).collect::<Vec<Self>>() });
        per.push(vec![Self::B]);
        interleave(per, n)
    }
    fn into_v(self) -> Option<Value> { Some(self.into()) }
    fn dup(&self) -> Self {
        match self {
            Self::A(x0, x1) => Self::A(x0.dup(), x1.dup()),
            Self::B => Self::B,
        }
    }
    fn dfmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        std::fmt::Debug::fmt(self, f)
    }
}

#[allow(dead_code)]
#[derive(Reflect, Clone, Debug)]
pub enum DfS10 {
    A {
        a: u8,
        b: NonZeroU8,
    },
    B,
}
#[allow(unused_variables, unused_mut, clippy::all)]
impl Modeled for DfS10 {
    fn t() -> T {
        T::Enum { name: std::any::type_name::<Self>(), variants: vec![VariantT { name: "A", kind: VK::Struct, fields: vec![FieldT { name: Some("a"), ty: <u8 as Modeled>::t, with: None, meta: vec![], docs: vec![] }, FieldT { name: Some("b"), ty: <NonZeroU8 as Modeled>::t, with: None, meta: vec![], docs: vec![] }], meta: vec![], docs: vec![] }, VariantT { name: "B", kind: VK::Unit, fields: vec![], meta: vec![], docs: vec![] }], skipped: vec![], meta: vec![], docs: vec![] }
    }
    fn m(&self) -> M {
        match self {
            Self::A { a: x0, b: x1 } => M::Enum("A".into(), VK::Struct, vec![(Some("a".into()), x0.m()), (Some("b".into()), x1.m())]),
            Self::B => M::Enum("B".into(), VK::Unit, vec![]),
        }
    }
    fn hidden(&self) -> Vec<u8> {
        match self {
            _ => vec![],
        }
    }
    fn vals(n: usize, d: usize) -> Vec<Self> {
        let mut per: Vec<Vec<Self>> = vec![];
        per.push({ let l0 = <u8 as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); let l1 = <NonZeroU8 as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); combos(&[l0.len(), l1.len()], n.max(1)).into_iter().map(|c: Vec<usize>| Self::A { a: l0[c[0]].dup(), b: l1[c[1]].dup() }).collect::<Vec<Self>>() });
        per.push(vec![Self::B]);
        interleave(per, n)
    }
    fn into_v(self) -> Option<Value> { Some(self.into()) }
    fn dup(&self) -> Self {
        match self {
            Self::A { a: x0, b: x1 } => Self::A { a: x0.dup(), b: x1.dup() },
            Self::B => Self::B,
        }
    }
    fn dfmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        std::fmt::Debug::fmt(self, f)
    }
}

#[allow(dead_code)]
#[derive(Reflect, Clone, Debug)]
pub struct DfK10 {
    pub a: u8,
    #[reflect(skip)] pub b: Hid,
}
#[allow(unused_variables, unused_mut, clippy::all)]
impl Modeled for DfK10 {
    fn t() -> T {
        T::Struct { name: std::any::type_name::<Self>(), fields: vec![FieldT { name: Some("a"), ty: <u8 as Modeled>::t, with: None, meta: vec![], docs: vec![] }], meta: vec![], docs: vec![] }
    }
    fn m(&self) -> M {
        M::Struct(vec![("a".to_owned(), self.a.m())])
    }
    fn hidden(&self) -> Vec<u8> {
        vec![self.b.0]
    }
    fn vals(n: usize, d: usize) -> Vec<Self> {
        let l0 = <u8 as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); combos(&[l0.len()], n.max(1)).into_iter().map(|c: Vec<usize>| Self { a: l0[c[0]].dup(), b: Hid(2) }).collect::<Vec<Self>>()
    }
    fn into_v(self) -> Option<Value> { Some(self.into()) }
    fn dup(&self) -> Self {
        Self { a: self.a.dup(), b: Hid(self.b.0) }
    }
    fn dfmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        std::fmt::Debug::fmt(self, f)
    }
}

#[allow(dead_code)]
#[derive(Reflect, Clone, Debug)]
pub struct Df11 {
    pub a: u8,
    pub b: u8,
}
#[allow(unused_variables, unused_mut, clippy::all)]
impl Modeled for Df11 {
    fn t() -> T {
        T::Struct { name: std::any::type_name::<Self>(), fields: vec![FieldT { name: Some("a"), ty: <u8 as Modeled>::t, with: None, meta: vec![], docs: vec![] }, FieldT { name: Some("b"), ty: <u8 as Modeled>::t, with: None, meta: vec![], docs: vec![] }], meta: vec![], docs: vec![] }
    }
    fn m(&self) -> M {
        M::Struct(vec![("a".to_owned(), self.a.m()), ("b".to_owned(), self.b.m())])
    }
    fn hidden(&self) -> Vec<u8> {
        vec![]
    }
    fn vals(n: usize, d: usize) -> Vec<Self> {
        let l0 = <u8 as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); let l1 = <u8 as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); combos(&[l0.len(), l1.len()], n.max(1)).into_iter().map(|c: Vec<usize>| Self { a: l0[c[0]].dup(), b: l1[c[1]].dup() }).collect::<Vec<Self>>()
    }
    fn into_v(self) -> Option<Value> { Some(self.into()) }
    fn dup(&self) -> Self {
        Self { a: self.a.dup(), b: self.b.dup() }
    }
    fn dfmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        std::fmt::Debug::fmt(self, f)
    }
}

#[allow(dead_code)]
#[derive(Reflect, Clone, Debug)]
pub struct DfT11(
    pub u8,
    pub u8,
);
#[allow(unused_variables, unused_mut, clippy::all)]
impl Modeled for DfT11 {
    fn t() -> T {
        T::TupleStruct { name: std::any::type_name::<Self>(), fields: vec![FieldT { name: None, ty: <u8 as Modeled>::t, with: None, meta: vec![], docs: vec![] }, FieldT { name: None, ty: <u8 as Modeled>::t, with: None, meta: vec![], docs: vec![] }], meta: vec![], docs: vec![] }
    }
    fn m(&self) -> M {
        M::TupleStruct(vec![self.0.m(), self.1.m()])
    }
    fn hidden(&self) -> Vec<u8> {
        vec![]
    }
    fn vals(n: usize, d: usize) -> Vec<Self> {
        let l0 = <u8 as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); let l1 = <u8 as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); combos(&[l0.len(), l1.len()], n.max(1)).into_iter().map(|c: Vec<usize>| Self(l0[c[0]].dup(), l1[c[1]].dup())).collect::<Vec<Self>>()
    }
    fn into_v(self) -> Option<Value> { Some(self.into()) }
    fn dup(&self) -> Self {
        Self(self.0.dup(), self.1.dup())
    }
    fn dfmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        std::fmt::Debug::fmt(self, f)
    }
}

#[allow(dead_code)]
#[derive(Reflect, Clone, Debug)]
pub enum DfE11 {
    A(
        u8,
        u8,
    ),
    B,
}
#[allow(unused_variables, unused_mut, clippy::all)]
impl Modeled for DfE11 {
    fn t() -> T {
        T::Enum { name: std::any::type_name::<Self>(), variants: vec![VariantT { name: "A", kind: VK::Tuple, fields: vec![FieldT { name: None, ty: <u8 as Modeled>::t, with: None, meta: vec![], docs: vec![] }, FieldT { name: None, ty: <u8 as Modeled>::t, with: None, meta: vec![], docs: vec![] }], meta: vec![], docs: vec![] }, VariantT { name: "B", kind: VK::Unit, fields: vec![], meta: vec![], docs: vec![] }], skipped: vec![], meta: vec![], docs: vec![] }
    }
    fn m(&self) -> M {
        match self {
            Self::A(x0, x1) => M::Enum("A".into(), VK::Tuple, vec![(None, x0.m()), (None, x1.m())]),
            Self::B => M::Enum("B".into(), VK::Unit, vec![]),
        }
    }
    fn hidden(&self) -> Vec<u8> {
        match self {
            _ => vec![],
        }
    }
    fn vals(n: usize, d: usize) -> Vec<Self> {
        let mut per: Vec<Vec<Self>> = vec![];
        per.push({ let l0 = <u8 as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); let l1 = <u8 as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); combos(&[l0.len(), l1.len()], n.max(1)).into_iter().map(|c: Vec<usize>| Self::A(l0[c[0]].dup(), l1[c[1]].dup())).collect::<Vec<Self>>() });
        per.push(vec![Self::B]);
        interleave(per, n)
    }
    fn into_v(self) -> Option<Value> { Some(self.into()) }
    fn dup(&self) -> Self {
        match self {
            Self::A(x0, x1) => Self::A(x0.dup(), x1.dup()),
            Self::B => Self::B,
        }
    }
    fn dfmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        std::fmt::Debug::fmt(self, f)
    }
}

#[allow(dead_code)]
#[derive(Reflect, Clone, Debug)]
pub enum DfS11 {
    A {
        a: u8,
        b: u8,
    },
    B,
}
#[allow(unused_variables, unused_mut, clippy::all)]
impl Modeled for DfS11 {
    fn t() -> T {
        T::Enum { name: std::any::type_name::<Self>(), variants: vec![VariantT { name: "A", kind: VK::Struct, fields: vec![FieldT { name: Some("a"), ty: <u8 as Modeled>::t, with: None, meta: vec![], docs: vec![] }, FieldT { name: Some("b"), ty: <u8 as Modeled>::t, with: None, meta: vec![], docs: vec![] }], meta: vec![], docs: vec![] }, VariantT { name: "B", kind: VK::Unit, fields: vec![], meta: vec![], docs: vec![] }], skipped: vec![], meta: vec![], docs: vec![] }
    }
    fn m(&self) -> M {
        match self {
            Self::A { a: x0, b: x1 } => M::Enum("A".into(), VK::Struct, vec![(Some("a".into()), x0.m()), (Some("b".into()), x1.m())]),
            Self::B => M::Enum("B".into(), VK::Unit, vec![]),
        }
    }
    fn hidden(&self) -> Vec<u8> {
        match self {
            _ => vec![],
        }
    }
    fn vals(n: usize, d: usize) -> Vec<Self> {
        let mut per: Vec<Vec<Self>> = vec![];
        per.push({ let l0 = <u8 as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); let l1 = <u8 as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); combos(&[l0.len(), l1.len()], n.max(1)).into_iter().map(|c: Vec<usize>| Self::A { a: l0[c[0]].dup(), b: l1[c[1]].dup() }).collect::<Vec<Self>>() });
        per.push(vec![Self::B]);
        interleave(per, n)
    }
    fn into_v(self) -> Option<Value> { Some(self.into()) }
    fn dup(&self) -> Self {
        match self {
            Self::A { a: x0, b: x1 } => Self::A { a: x0.dup(), b: x1.dup() },
            Self::B => Self::B,
        }
    }
    fn dfmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        std::fmt::Debug::fmt(self, f)
    }
}

#[allow(dead_code)]
#[derive(Reflect, Clone, Debug)]
pub struct DfK11 {
    pub a: u8,
    pub b: u8,
}
#[allow(unused_variables, unused_mut, clippy::all)]
impl Modeled for DfK11 {
    fn t() -> T {
        T::Struct { name: std::any::type_name::<Self>(), fields: vec![FieldT { name: Some("a"), ty: <u8 as Modeled>::t, with: None, meta: vec![], docs: vec![] }, FieldT { name: Some("b"), ty: <u8 as Modeled>::t, with: None, meta: vec![], docs: vec![] }], meta: vec![], docs: vec![] }
    }
    fn m(&self) -> M {
        M::Struct(vec![("a".to_owned(), self.a.m()), ("b".to_owned(), self.b.m())])
    }
    fn hidden(&self) -> Vec<u8> {
        vec![]
    }
    fn vals(n: usize, d: usize) -> Vec<Self> {
        let l0 = <u8 as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); let l1 = <u8 as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); combos(&[l0.len(), l1.len()], n.max(1)).into_iter().map(|c: Vec<usize>| Self { a: l0[c[0]].dup(), b: l1[c[1]].dup() }).collect::<Vec<Self>>()
    }
    fn into_v(self) -> Option<Value> { Some(self.into()) }
    fn dup(&self) -> Self {
        Self { a: self.a.dup(), b: self.b.dup() }
    }
    fn dfmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        std::fmt::Debug::fmt(self, f)
    }
}

#[allow(dead_code)]
#[derive(Reflect, Clone, Debug)]
pub struct Df000 {
    pub a: NonZeroU8,
    pub b: NonZeroU8,
    pub c: NonZeroU8,
}
#[allow(unused_variables, unused_mut, clippy::all)]
impl Modeled for Df000 {
    fn t() -> T {
        T::Struct { name: std::any::type_name::<Self>(), fields: vec![FieldT { name: Some("a"), ty: <NonZeroU8 as Modeled>::t, with: None, meta: vec![], docs: vec![] }, FieldT { name: Some("b"), ty: <NonZeroU8 as Modeled>::t, with: None, meta: vec![], docs: vec![] }, FieldT { name: Some("c"), ty: <NonZeroU8 as Modeled>::t, with: None, meta: vec![], docs: vec![] }], meta: vec![], docs: vec![] }
    }
    fn m(&self) -> M {
        M::Struct(vec![("a".to_owned(), self.a.m()), ("b".to_owned(), self.b.m()), ("c".to_owned(), self.c.m())])
    }
    fn hidden(&self) -> Vec<u8> {
        vec![]
    }
    fn vals(n: usize, d: usize) -> Vec<Self> {
        let l0 = <NonZeroU8 as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); let l1 = <NonZeroU8 as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); let l2 = <NonZeroU8 as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); combos(&[l0.len(), l1.len(), l2.len()], n.max(1)).into_iter().map(|c: Vec<usize>| Self { a: l0[c[0]].dup(), b: l1[c[1]].dup(), c: l2[c[2]].dup() }).collect::<Vec<Self>>()
    }
    fn into_v(self) -> Option<Value> { Some(self.into()) }
    fn dup(&self) -> Self {
        Self { a: self.a.dup(), b: self.b.dup(), c: self.c.dup() }
    }
    fn dfmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        std::fmt::Debug::fmt(self, f)
    }
}

#[allow(dead_code)]
#[derive(Reflect, Clone, Debug)]
pub struct DfT000(
    pub NonZeroU8,
    pub NonZeroU8,
    pub NonZeroU8,
);
#[allow(unused_variables, unused_mut, clippy::all)]
impl Modeled for DfT000 {
    fn t() -> T {
        T::TupleStruct { name: std::any::type_name::<Self>(), fields: vec![FieldT { name: None, ty: <NonZeroU8 as Modeled>::t, with: None, meta: vec![], docs: vec![] }, FieldT { name: None, ty: <NonZeroU8 as Modeled>::t, with: None, meta: vec![], docs: vec![] }, FieldT { name: None, ty: <NonZeroU8 as Modeled>::t, with: None, meta: vec![], docs: vec![] }], meta: vec![], docs: vec![] }
    }
    fn m(&self) -> M {
        M::TupleStruct(vec![self.0.m(), self.1.m(), self.2.m()])
    }
    fn hidden(&self) -> Vec<u8> {
        vec![]
    }
    fn vals(n: usize, d: usize) -> Vec<Self> {
        let l0 = <NonZeroU8 as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); let l1 = <NonZeroU8 as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); let l2 = <NonZeroU8 as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); combos(&[l0.len(), l1.len(), l2.len()], n.max(1)).into_iter().map(|c: Vec<usize>| Self(l0[c[0]].dup(), l1[c[1]].dup(), l2[c[2]].dup())).collect::<Vec<Self>>()
    }
    fn into_v(self) -> Option<Value> { Some(self.into()) }
    fn dup(&self) -> Self {
        Self(self.0.dup(), self.1.dup(), self.2.dup())
    }
    fn dfmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        std::fmt::Debug::fmt(self, f)
    }
}

#[allow(dead_code)]
#[derive(Reflect, Clone, Debug)]
pub enum DfE000 {
    A(
        NonZeroU8,
        NonZeroU8,
        NonZeroU8,
    ),
    B,
}
#[allow(unused_variables, unused_mut, clippy::all)]
impl Modeled for DfE000 {
    fn t() -> T {
        T::Enum { name: std::any::type_name::<Self>(), variants: vec![VariantT { name: "A", kind: VK::Tuple, fields: vec![FieldT { name: None, ty: <NonZeroU8 as Modeled>::t, with: None, meta: vec![], docs: vec![] }, FieldT { name: None, ty: <NonZeroU8 as Modeled>::t, with: None, meta: vec![], docs: vec![] }, FieldT { name: None, ty: <NonZeroU8 as Modeled>::t, with: None, meta: vec![], docs: vec![] }], meta: vec![], docs: vec![] }, VariantT { name: "B", kind: VK::Unit, fields: vec![], meta: vec![], docs: vec![] }], skipped: vec![], meta: vec![], docs: vec![] }
    }
    fn m(&self) -> M {
        match self {
            Self::A(x0, x1, x2) => M::Enum("A".into(), VK::Tuple, vec![(None, x0.m()), (None, x1.m()), (None, x2.m())]),
            Self::B => M::Enum("B".into(), VK::Unit, vec![]),
        }
    }
    fn hidden(&self) -> Vec<u8> {
        match self {
            _ => vec![],
        }
    }
    fn vals(n: usize, d: usize) -> Vec<Self> {
        let mut per: Vec<Vec<Self>> = vec![];
        per.push({ let l0 = <NonZeroU8 as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); let l1 = <NonZeroU8 as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); let l2 = <NonZeroU8 as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); combos(&[l0.len(), l1.len(), l2.len()], n.max(1)).into_iter().map(|c: Vec<usize>| Self::A(l0[c[0]].dup(), l1[c[1]].dup(), l2[c[2]].dup())).collect::<Vec<Self>>() });
        per.push(vec![Self::B]);
        interleave(per, n)
    }
    fn into_v(self) -> Option<Value> { Some(self.into()) }
    fn dup(&self) -> Self {
        match self {
            Self::A(x0, x1, x2) => Self::A(x0.dup(), x1.dup(), x2.dup()),
            Self::B => Self::B,
        }
    }
    fn dfmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        std::fmt::Debug::fmt(self, f)
    }
}

#[allow(dead_code)]
#[derive(Reflect, Clone, Debug)]
pub enum DfS000 {
    A {
        a: NonZeroU8,
        b: NonZeroU8,
        c: NonZeroU8,
    },
    B,
}
#[allow(unused_variables, unused_mut, clippy::all)]
impl Modeled for DfS000 {
    fn t() -> T {
        T::Enum { name: std::any::type_name::<Self>(), variants: vec![VariantT { name: "A", kind: VK::Struct, fields: vec![FieldT { name: Some("a"), ty: <NonZeroU8 as Modeled>::t, with: None, meta: vec![], docs: vec![] }, FieldT { name: Some("b"), ty: <NonZeroU8 as Modeled>::t, with: None, meta: vec![], docs: vec![] }, FieldT { name: Some("c"), ty: <NonZeroU8 as Modeled>::t, with: None, meta: vec![], docs: vec![] }], meta: vec![], docs: vec![] }, VariantT { name: "B", kind: VK::Unit, fields: vec![], meta: vec![], docs: vec![] }], skipped: vec![], meta: vec![], docs: vec![] }
    }
    fn m(&self) -> M {
        match self {
            Self::A { a: x0, b: x1, c: x2 } => M::Enum("A".into(), VK::Struct, vec![(Some("a".into()), x0.m()), (Some("b".into()), x1.m()), (Some("c".into()), x2.m())]),
            Self::B => M::Enum("B".into(), VK::Unit, vec![]),
        }
    }
    fn hidden(&self) -> Vec<u8> {
        match self {
            _ => vec![],
        }
    }
    fn vals(n: usize, d: usize) -> Vec<Self> {
        let mut per: Vec<Vec<Self>> = vec![];
        per.push({ let l0 = <NonZeroU8 as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); let l1 = <NonZeroU8 as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); let l2 = <NonZeroU8 as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); combos(&[l0.len(), l1.len(), l2.len()], n.max(1)).into_iter().map(|c: Vec<usize>| Self::A { a: l0[c[0]].dup(), b: l1[c[1]].dup(), c: l2[c[2]].dup() }).collect::<Vec<Self>>() });
        per.push(vec![Self::B]);
        interleave(per, n)
    }
    fn into_v(self) -> Option<Value> { Some(self.into()) }
    fn dup(&self) -> Self {
        match self {
            Self::A { a: x0, b: x1, c: x2 } => Self::A { a: x0.dup(), b: x1.dup(), c: x2.dup() },
            Self::B => Self::B,
        }
    }
    fn dfmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        std::fmt::Debug::fmt(self, f)
    }
}

#[allow(dead_code)]
#[derive(Reflect, Clone, Debug)]
pub struct Df001 {
    pub a: NonZeroU8,
    pub b: NonZeroU8,
    pub c: u8,
}
#[allow(unused_variables, unused_mut, clippy::all)]
impl Modeled for Df001 {
    fn t() -> T {
        T::Struct { name: std::any::type_name::<Self>(), fields: vec![FieldT { name: Some("a"), ty: <NonZeroU8 as Modeled>::t, with: None, meta: vec![], docs: vec![] }, FieldT { name: Some("b"), ty: <NonZeroU8 as Modeled>::t, with: None, meta: vec![], docs: vec![] }, FieldT { name: Some("c"), ty: <u8 as Modeled>::t, with: None, meta: vec![], docs: vec![] }], meta: vec![], docs: vec![] }
    }
    fn m(&self) -> M {
        M::Struct(vec![("a".to_owned(), self.a.m()), ("b".to_owned(), self.b.m()), ("c".to_owned(), self.c.m())])
    }
    fn hidden(&self) -> Vec<u8> {
        vec![]
    }
    fn vals(n: usize, d: usize) -> Vec<Self> {
        let l0 = <NonZeroU8 as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); let l1 = <NonZeroU8 as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); let l2 = <u8 as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); combos(&[l0.len(), l1.len(), l2.len()], n.max(1)).into_iter().map(|c: Vec<usize>| Self { a: l0[c[0]].dup(), b: l1[c[1]].dup(), c: l2[c[2]].dup() }).collect::<Vec<Self>>()
    }
    fn into_v(self) -> Option<Value> { Some(self.into()) }
    fn dup(&self) -> Self {
        Self { a: self.a.dup(), b: self.b.dup(), c: self.c.dup() }
    }
    fn dfmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        std::fmt::Debug::fmt(self, f)
    }
}

#[allow(dead_code)]
#[derive(Reflect, Clone, Debug)]
pub struct DfT001(
    pub NonZeroU8,
    pub NonZeroU8,
    pub u8,
);
#[allow(unused_variables, unused_mut, clippy::all)]
impl Modeled for DfT001 {
    fn t() -> T {
        T::TupleStruct { name: std::any::type_name::<Self>(), fields: vec![FieldT { name: None, ty: <NonZeroU8 as Modeled>::t, with: None, meta: vec![], docs: vec![] }, FieldT { name: None, ty: <NonZeroU8 as Modeled>::t, with: None, meta: vec![], docs: vec![] }, FieldT { name: None, ty: <u8 as Modeled>::t, with: None, meta: vec![], docs: vec![] }], meta: vec![], docs: vec![] }
    }
    fn m(&self) -> M {
        M::TupleStruct(vec![self.0.m(), self.1.m(), self.2.m()])
    }
    fn hidden(&self) -> Vec<u8> {
        vec![]
    }
    fn vals(n: usize, d: usize) -> Vec<Self> {
        let l0 = <NonZeroU8 as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); let l1 = <NonZeroU8 as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); let l2 = <u8 as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); combos(&[l0.len(), l1.len(), l2.len()], n.max(1)).into_iter().map(|c: Vec<usize>| Self(l0[c[0]].dup(), l1[c[1]].dup(), l2[c[2]].dup())).collect::<Vec<Self>>()
    }
    fn into_v(self) -> Option<Value> { Some(self.into()) }
    fn dup(&self) -> Self {
        Self(self.0.dup(), self.1.dup(), self.2.dup())
    }
    fn dfmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        std::fmt::Debug::fmt(self, f)
    }
}

#[allow(dead_code)]
#[derive(Reflect, Clone, Debug)]
pub enum DfE001 {
    A(
        NonZeroU8,
        NonZeroU8,
        u8,
    ),
    B,
}
#[allow(unused_variables, unused_mut, clippy::all)]
impl Modeled for DfE001 {
    fn t() -> T {
        T::Enum { name: std::any::type_name::<Self>(), variants: vec![VariantT { name: "A", kind: VK::Tuple, fields: vec![FieldT { name: None, ty: <NonZeroU8 as Modeled>::t, with: None, meta: vec![], docs: vec![] }, FieldT { name: None, ty: <NonZeroU8 as Modeled>::t, with: None, meta: vec![], docs: vec![] }, FieldT { name: None, ty: <u8 as Modeled>::t, with: None, meta: vec![], docs: vec![] }], meta: vec![], docs: vec![] }, VariantT { name: "B", kind: VK::Unit, fields: vec![], meta: vec![], docs: vec![] }], skipped: vec![], meta: vec![], docs: vec![] }
    }
    fn m(&self) -> M {
        match self {
            Self::A(x0, x1, x2) => M::Enum("A".into(), VK::Tuple, vec![(None, x0.m()), (None, x1.m()), (None, x2.m())]),
            Self::B => M::Enum("B".into(), VK::Unit, vec![]),
        }
    }
    fn hidden(&self) -> Vec<u8> {
        match self {
            _ => vec![],
        }
    }
    fn vals(n: usize, d: usize) -> Vec<Self> {
        let mut per: Vec<Vec<Self>> = vec![];
        per.push({ let l0 = <NonZeroU8 as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); let l1 = <NonZeroU8 as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); let l2 = <u8 as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); combos(&[l0.len(), l1.len(), l2.len()], n.max(1)).into_iter().map(|c: Vec<usize>| Self::A(l0[c[0]].dup(), l1[c[1]].dup(), l2[c[2]].dup())).collect::<Vec<Self>>() });
        per.push(vec![Self::B]);
        interleave(per, n)
    }
    fn into_v(self) -> Option<Value> { Some(self.into()) }
    fn dup(&self) -> Self {
        match self {
            Self::A(x0, x1, x2) => Self::A(x0.dup(), x1.dup(), x2.dup()),
            Self::B => Self::B,
        }
    }
    fn dfmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        std::fmt::Debug::fmt(self, f)
    }
}

#[allow(dead_code)]
#[derive(Reflect, Clone, Debug)]
pub enum DfS001 {
    A {
        a: NonZeroU8,
        b: NonZeroU8,
        c: u8,
    },
    B,
}
#[allow(unused_variables, unused_mut, clippy::all)]
impl Modeled for DfS001 {
    fn t() -> T {
        T::Enum { name: std::any::type_name::<Self>(), variants: vec![VariantT { name: "A", kind: VK::Struct, fields: vec![FieldT { name: Some("a"), ty: <NonZeroU8 as Modeled>::t, with: None, meta: vec![], docs: vec![] }, FieldT { name: Some("b"), ty: <NonZeroU8 as Modeled>::t, with: None, meta: vec![], docs: vec![] }, FieldT { name: Some("c"), ty: <u8 as Modeled>::t, with: None, meta: vec![], docs: vec![] }], meta: vec![], docs: vec![] }, VariantT { name: "B", kind: VK::Unit, fields: vec![], meta: vec![], docs: vec![] }], skipped: vec![], meta: vec![], docs: vec![] }
    }
    fn m(&self) -> M {
        match self {
            Self::A { a: x0, b: x1, c: x2 } => M::Enum("A".into(), VK::Struct, vec![(Some("a".into()), x0.m()), (Some("b".into()), x1.m()), (Some("c".into()), x2.m())]),
            Self::B => M::Enum("B".into(), VK::Unit, vec![]),
        }
    }
    fn hidden(&self) -> Vec<u8> {
        match self {
            _ => vec![],
        }
    }
    fn vals(n: usize, d: usize) -> Vec<Self> {
        let mut per: Vec<Vec<Self>> = vec![];
        per.push({ let l0 = <NonZeroU8 as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); let l1 = <NonZeroU8 as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); let l2 = <u8 as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); combos(&[l0.len(), l1.len(), l2.len()], n.max(1)).into_iter().map(|c: Vec<usize>| Self::A { a: l0[c[0]].dup(), b: l1[c[1]].dup(), c: l2[c[2]].dup() }).collect::<Vec<Self>>() });
        per.push(vec![Self::B]);
        interleave(per, n)
    }
    fn into_v(self) -> Option<Value> { Some(self.into()) }
    fn dup(&self) -> Self {
        match self {
            Self::A { a: x0, b: x1, c: x2 } => Self::A { a: x0.dup(), b: x1.dup(), c: x2.dup() },
            Self::B => Self::B,
        }
    }
    fn dfmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        std::fmt::Debug::fmt(self, f)
    }
}

#[allow(dead_code)]
#[derive(Reflect, Clone, Debug)]
pub struct Df010 {
    pub a: NonZeroU8,
    pub b: u8,
    pub c: NonZeroU8,
}
#[allow(unused_variables, unused_mut, clippy::all)]
impl Modeled for Df010 {
    fn t() -> T {
        T::Struct { name: std::any::type_name::<Self>(), fields: vec![FieldT { name: Some("a"), ty: <NonZeroU8 as Modeled>::t, with: None, meta: vec![], docs: vec![] }, FieldT { name: Some("b"), ty: <u8 as Modeled>::t, with: None, meta: vec![], docs: vec![] }, FieldT { name: Some("c"), ty: <NonZeroU8 as Modeled>::t, with: None, meta: vec![], docs: vec![] }], meta: vec![], docs: vec![] }
    }
    fn m(&self) -> M {
        M::Struct(vec![("a".to_owned(), self.a.m()), ("b".to_owned(), self.b.m()), ("c".to_owned(), self.c.m())])
    }
    fn hidden(&self) -> Vec<u8> {
        vec![]
    }
    fn vals(n: usize, d: usize) -> Vec<Self> {
        let l0 = <NonZeroU8 as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); let l1 = <u8 as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); let l2 = <NonZeroU8 as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); combos(&[l0.len(), l1.len(), l2.len()], n.max(1)).into_iter().map(|c: Vec<usize>| Self { a: l0[c[0]].dup(), b: l1[c[1]].dup(), c: l2[c[2]].dup() }).collect::<Vec<Self>>()
    }
    fn into_v(self) -> Option<Value> { Some(self.into()) }
    fn dup(&self) -> Self {
        Self { a: self.a.dup(), b: self.b.dup(), c: self.c.dup() }
    }
    fn dfmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        std::fmt::Debug::fmt(self, f)
    }
}

#[allow(dead_code)]
#[derive(Reflect, Clone, Debug)]
pub struct DfT010(
    pub NonZeroU8,
    pub u8,
    pub NonZeroU8,
);
#[allow(unused_variables, unused_mut, clippy::all)]
impl Modeled for DfT010 {
    fn t() -> T {
        T::TupleStruct { name: std::any::type_name::<Self>(), fields: vec![FieldT { name: None, ty: <NonZeroU8 as Modeled>::t, with: None, meta: vec![], docs: vec![] }, FieldT { name: None, ty: <u8 as Modeled>::t, with: None, meta: vec![], docs: vec![] }, FieldT { name: None, ty: <NonZeroU8 as Modeled>::t, with: None, meta: vec![], docs: vec![] }], meta: vec![], docs: vec![] }
    }
    fn m(&self) -> M {
        M::TupleStruct(vec![self.0.m(), self.1.m(), self.2.m()])
    }
    fn hidden(&self) -> Vec<u8> {
        vec![]
    }
    fn vals(n: usize, d: usize) -> Vec<Self> {
        let l0 = <NonZeroU8 as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); let l1 = <u8 as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); let l2 = <NonZeroU8 as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); combos(&[l0.len(), l1.len(), l2.len()], n.max(1)).into_iter().map(|c: Vec<usize>| Self(l0[c[0]].dup(), l1[c[1]].dup(), l2[c[2]].dup())).collect::<Vec<Self>>()
    }
    fn into_v(self) -> Option<Value> { Some(self.into()) }
    fn dup(&self) -> Self {
        Self(self.0.dup(), self.1.dup(), self.2.dup())
    }
    fn dfmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        std::fmt::Debug::fmt(self, f)
    }
}

#[allow(dead_code)]
#[derive(Reflect, Clone, Debug)]
pub enum DfE010 {
    A(
        NonZeroU8,
        u8,
        NonZeroU8,
    ),
    B,
}
#[allow(unused_variables, unused_mut, clippy::all)]
impl Modeled for DfE010 {
    fn t() -> T {
        T::Enum { name: std::any::type_name::<Self>(), variants: vec![VariantT { name: "A", kind: VK::Tuple, fields: vec![FieldT { name: None, ty: <NonZeroU8 as Modeled>::t, with: None, meta: vec![], docs: vec![] }, FieldT { name: None, ty: <u8 as Modeled>::t, with: None, meta: vec![], docs: vec![] }, FieldT { name: None, ty: <NonZeroU8 as Modeled>::t, with: None, meta: vec![], docs: vec![] }], meta: vec![], docs: vec![] }, VariantT { name: "B", kind: VK::Unit, fields: vec![], meta: vec![], docs: vec![] }], skipped: vec![], meta: vec![], docs: vec![] }
    }
    fn m(&self) -> M {
        match self {
            Self::A(x0, x1, x2) => M::Enum("A".into(), VK::Tuple, vec![(None, x0.m()), (None, x1.m()), (None, x2.m())]),
            Self::B => M::Enum("B".into(), VK::Unit, vec![]),
        }
    }
    fn hidden(&self) -> Vec<u8> {
        match self {
            _ => vec![],
        }
    }
    fn vals(n: usize, d: usize) -> Vec<Self> {
        let mut per: Vec<Vec<Self>> = vec![];
        per.push({ let l0 = <NonZeroU8 as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); let l1 = <u8 as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); let l2 = <NonZeroU8 as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); combos(&[l0.len(), l1.len(), l2.len()], n.max(1)).into_iter().map(|c: Vec<usize>| Self::A(l0[c[0]].dup(), l1[c[1]].dup(), l2[c[2]].dup())).collect::<Vec<Self>>() });
        per.push(vec![Self::B]);
        interleave(per, n)
    }
    fn into_v(self) -> Option<Value> { Some(self.into()) }
    fn dup(&self) -> Self {
        match self {
            Self::A(x0, x1, x2) => Self::A(x0.dup(), x1.dup(), x2.dup()),
            Self::B => Self::B,
        }
    }
    fn dfmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        std::fmt::Debug::fmt(self, f)
    }
}

#[allow(dead_code)]
#[derive(Reflect, Clone, Debug)]
pub enum DfS010 {
    A {
        a: NonZeroU8,
        b: u8,
        c: NonZeroU8,
    },
    B,
}
#[allow(unused_variables, unused_mut, clippy::all)]
impl Modeled for DfS010 {
    fn t() -> T {
        T::Enum { name: std::any::type_name::<Self>(), variants: vec![VariantT { name: "A", kind: VK::Struct, fields: vec![FieldT { name: Some("a"), ty: <NonZeroU8 as Modeled>::t, with: None, meta: vec![], docs: vec![] }, FieldT { name: Some("b"), ty: <u8 as Modeled>::t, with: None, meta: vec![], docs: vec![] }, FieldT { name: Some("c"), ty: <NonZeroU8 as Modeled>::t, with: None, meta: vec![], docs: vec![] }], meta: vec![], docs: vec![] }, VariantT { name: "B", kind: VK::Unit, fields: vec![], meta: vec![], docs: vec![] }], skipped: vec![], meta: vec![], docs: vec![] }
    }
    fn m(&self) -> M {
        match self {
            Self::A { a: x0, b: x1, c: x2 } => M::Enum("A".into(), VK::Struct, vec![(Some("a".into()), x0.m()), (Some("b".into()), x1.m()), (Some("c".into()), x2.m())]),
            Self::B => M::Enum("B".into(), VK::Unit, vec![]),
        }
    }
    fn hidden(&self) -> Vec<u8> {
        match self {
            _ => vec![],
        }
    }
    fn vals(n: usize, d: usize) -> Vec<Self> {
        let mut per: Vec<Vec<Self>> = vec![];
        per.push({ let l0 = <NonZeroU8 as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); let l1 = <u8 as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); let l2 = <NonZeroU8 as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); combos(&[l0.len(), l1.len(), l2.len()], n.max(1)).into_iter().map(|c: Vec<usize>| Self::A { a: l0[c[0]].dup(), b: l1[c[1]].dup(), c: l2[c[2]].dup() }).collect::<Vec<Self>>() });
        per.push(vec![Self::B]);
        interleave(per, n)
    }
    fn into_v(self) -> Option<Value> { Some(self.into()) }
    fn dup(&self) -> Self {
        match self {
            Self::A { a: x0, b: x1, c: x2 } => Self::A { a: x0.dup(), b: x1.dup(), c: x2.dup() },
            Self::B => Self::B,
        }
    }
    fn dfmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        std::fmt::Debug::fmt(self, f)
    }
}

#[allow(dead_code)]
#[derive(Reflect, Clone, Debug)]
pub struct Df011 {
    pub a: NonZeroU8,
    pub b: u8,
    pub c: u8,
}
#[allow(unused_variables, unused_mut, clippy::all)]
impl Modeled for Df011 {
    fn t() -> T {
        T::Struct { name: std::any::type_name::<Self>(), fields: vec![FieldT { name: Some("a"), ty: <NonZeroU8 as Modeled>::t, with: None, meta: vec![], docs: vec![] }, FieldT { name: Some("b"), ty: <u8 as Modeled>::t, with: None, meta: vec![], docs: vec![] }, FieldT { name: Some("c"), ty: <u8 as Modeled>::t, with: None, meta: vec![], docs: vec![] }], meta: vec![], docs: vec![] }
    }
    fn m(&self) -> M {
        M::Struct(vec![("a".to_owned(), self.a.m()), ("b".to_owned(), self.b.m()), ("c".to_owned(), self.c.m())])
    }
    fn hidden(&self) -> Vec<u8> {
        vec![]
    }
    fn vals(n: usize, d: usize) -> Vec<Self> {
        let l0 = <NonZeroU8 as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); let l1 = <u8 as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); let l2 = <u8 as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); combos(&[l0.len(), l1.len(), l2.len()], n.max(1)).into_iter().map(|c: Vec<usize>| Self { a: l0[c[0]].dup(), b: l1[c[1]].dup(), c: l2[c[2]].dup() }).collect::<Vec<Self>>()
    }
    fn into_v(self) -> Option<Value> { Some(self.into()) }
    fn dup(&self) -> Self {
        Self { a: self.a.dup(), b: self.b.dup(), c: self.c.dup() }
    }
    fn dfmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        std::fmt::Debug::fmt(self, f)
    }
}

#[allow(dead_code)]
#[derive(Reflect, Clone, Debug)]
pub struct DfT011(
    pub NonZeroU8,
    pub u8,
    pub u8,
);
#[allow(unused_variables, unused_mut, clippy::all)]
impl Modeled for DfT011 {
    fn t() -> T {
        T::TupleStruct { name: std::any::type_name::<Self>(), fields: vec![FieldT { name: None, ty: <NonZeroU8 as Modeled>::t, with: None, meta: vec![], docs: vec![] }, FieldT { name: None, ty: <u8 as Modeled>::t, with: None, meta: vec![], docs: vec![] }, FieldT { name: None, ty: <u8 as Modeled>::t, with: None, meta: vec![], docs: vec![] }], meta: vec![], docs: vec![] }
    }
    fn m(&self) -> M {
        M::TupleStruct(vec![self.0.m(), self.1.m(), self.2.m()])
    }
    fn hidden(&self) -> Vec<u8> {
        vec![]
    }
    fn vals(n: usize, d: usize) -> Vec<Self> {
        let l0 = <NonZeroU8 as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); let l1 = <u8 as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); let l2 = <u8 as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); combos(&[l0.len(), l1.len(), l2.len()], n.max(1)).into_iter().map(|c: Vec<usize>| Self(l0[c[0]].dup(), l1[c[1]].dup(), l2[c[2]].dup())).collect::<Vec<Self>>()
    }
    fn into_v(self) -> Option<Value> { Some(self.into()) }
    fn dup(&self) -> Self {
        Self(self.0.dup(), self.1.dup(), self.2.dup())
    }
    fn dfmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        std::fmt::Debug::fmt(self, f)
    }
}

#[allow(dead_code)]
#[derive(Reflect, Clone, Debug)]
pub enum DfE011 {
    A(
        NonZeroU8,
        u8,
        u8,
    ),
    B,
}
#[allow(unused_variables, unused_mut, clippy::all)]
impl Modeled for DfE011 {
    fn t() -> T {
        T::Enum { name: std::any::type_name::<Self>(), variants: vec![VariantT { name: "A", kind: VK::Tuple, fields: vec![FieldT { name: None, ty: <NonZeroU8 as Modeled>::t, with: None, meta: vec![], docs: vec![] }, FieldT { name: None, ty: <u8 as Modeled>::t, with: None, meta: vec![], docs: vec![] }, FieldT { name: None, ty: <u8 as Modeled>::t, with: None, meta: vec![], docs: vec![] }], meta: vec![], docs: vec![] }, VariantT { name: "B", kind: VK::Unit, fields: vec![], meta: vec![], docs: vec![] }], skipped: vec![], meta: vec![], docs: vec![] }
    }
    fn m(&self) -> M {
        match self {
            Self::A(x0, x1, x2) => M::Enum("A".into(), VK::Tuple, vec![(None, x0.m()), (None, x1.m()), (None, x2.m())]),
            Self::B => M::Enum("B".into(), VK::Unit, vec![]),
        }
    }
    fn hidden(&self) -> Vec<u8> {
        match self {
            _ => vec![],
        }
    }
    fn vals(n: usize, d: usize) -> Vec<Self> {
        let mut per: Vec<Vec<Self>> = vec![];
        per.push({ let l0 = <NonZeroU8 as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); let l1 = <u8 as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); let l2 = <u8 as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); combos(&[l0.len(), l1.len(), l2.len()], n.max(1)).into_iter().map(|c: Vec<usize>| Self::A(l0[c[0]].dup(), l1[c[1]].dup(), l2[c[2]].dup())).collect::<Vec<Self>>() });
        per.push(vec![Self::B]);
        interleave(per, n)
    }
    fn into_v(self) -> Option<Value> { Some(self.into()) }
    fn dup(&self) -> Self {
        match self {
            Self::A(x0, x1, x2) => Self::A(x0.dup(), x1.dup(), x2.dup()),
            Self::B => Self::B,
        }
    }
    fn dfmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        std::fmt::Debug::fmt(self, f)
    }
}

#[allow(dead_code)]
#[derive(Reflect, Clone, Debug)]
pub enum DfS011 {
    A {
        a: NonZeroU8,
        b: u8,
        c: u8,
    },
    B,
}
#[allow(unused_variables, unused_mut, clippy::all)]
impl Modeled for DfS011 {
    fn t() -> T {
        T::Enum { name: std::any::type_name::<Self>(), variants: vec![VariantT { name: "A", kind: VK::Struct, fields: vec![FieldT { name: Some("a"), ty: <NonZeroU8 as Modeled>::t, with: None, meta: vec![], docs: vec![] }, FieldT { name: Some("b"), ty: <u8 as Modeled>::t, with: None, meta: vec![], docs: vec![] }, FieldT { name: Some("c"), ty: <u8 as Modeled>::t, with: None, meta: vec![], docs: vec![] }], meta: vec![], docs: vec![] }, VariantT { name: "B", kind: VK::Unit, fields: vec![], meta: vec![], docs: vec![] }], skipped: vec![], meta: vec![], docs: vec![] }
    }
    fn m(&self) -> M {
        match self {
            Self::A { a: x0, b: x1, c: x2 } => M::Enum("A".into(), VK::Struct, vec![(Some("a".into()), x0.m()), (Some("b".into()), x1.m()), (Some("c".into()), x2.m())]),
            Self::B => M::Enum("B".into(), VK::Unit, vec![]),
        }
    }
    fn hidden(&self) -> Vec<u8> {
        match self {
            _ => vec![],
        }
    }
    fn vals(n: usize, d: usize) -> Vec<Self> {
        let mut per: Vec<Vec<Self>> = vec![];
        per.push({ let l0 = <NonZeroU8 as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); let l1 = <u8 as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); let l2 = <u8 as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); combos(&[l0.len(), l1.len(), l2.len()], n.max(1)).into_iter().map(|c: Vec<usize>| Self::A { a: l0[c[0]].dup(), b: l1[c[1]].dup(), c: l2[c[2]].dup() }).collect::<Vec<Self>>() });
        per.push(vec![Self::B]);
        interleave(per, n)
    }
    fn into_v(self) -> Option<Value> { Some(self.into()) }
    fn dup(&self) -> Self {
        match self {
            Self::A { a: x0, b: x1, c: x2 } => Self::A { a: x0.dup(), b: x1.dup(), c: x2.dup() },
            Self::B => Self::B,
        }
    }
    fn dfmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        std::fmt::Debug::fmt(self, f)
    }
}

#[allow(dead_code)]
#[derive(Reflect, Clone, Debug)]
pub struct Df100 {
    pub a: u8,
    pub b: NonZeroU8,
    pub c: NonZeroU8,
}
#[allow(unused_variables, unused_mut, clippy::all)]
impl Modeled for Df100 {
    fn t() -> T {
        T::Struct { name: std::any::type_name::<Self>(), fields: vec![FieldT { name: Some("a"), ty: <u8 as Modeled>::t, with: None, meta: vec![], docs: vec![] }, FieldT { name: Some("b"), ty: <NonZeroU8 as Modeled>::t, with: None, meta: vec![], docs: vec![] }, FieldT { name: Some("c"), ty: <NonZeroU8 as Modeled>::t, with: None, meta: vec![], docs: vec![] }], meta: vec![], docs: vec![] }
    }
    fn m(&self) -> M {
        M::Struct(vec![("a".to_owned(), self.a.m()), ("b".to_owned(), self.b.m()), ("c".to_owned(), self.c.m())])
    }
    fn hidden(&self) -> Vec<u8> {
        vec![]
    }
    fn vals(n: usize, d: usize) -> Vec<Self> {
        let l0 = <u8 as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); let l1 = <NonZeroU8 as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); let l2 = <NonZeroU8 as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); combos(&[l0.len(), l1.len(), l2.len()], n.max(1)).into_iter().map(|c: Vec<usize>| Self { a: l0[c[0]].dup(), b: l1[c[1]].dup(), c: l2[c[2]].dup() }).collect::<Vec<Self>>()
    }
    fn into_v(self) -> Option<Value> { Some(self.into()) }
    fn dup(&self) -> Self {
        Self { a: self.a.dup(), b: self.b.dup(), c: self.c.dup() }
    }
    fn dfmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        std::fmt::Debug::fmt(self, f)
    }
}

#[allow(dead_code)]
#[derive(Reflect, Clone, Debug)]
pub struct DfT100(
    pub u8,
    pub NonZeroU8,
    pub NonZeroU8,
);
#[allow(unused_variables, unused_mut, clippy::all)]
impl Modeled for DfT100 {
    fn t() -> T {
        T::TupleStruct { name: std::any::type_name::<Self>(), fields: vec![FieldT { name: None, ty: <u8 as Modeled>::t, with: None, meta: vec![], docs: vec![] }, FieldT { name: None, ty: <NonZeroU8 as Modeled>::t, with: None, meta: vec![], docs: vec![] }, FieldT { name: None, ty: <NonZeroU8 as Modeled>::t, with: None, meta: vec![], docs: vec![] }], meta: vec![], docs: vec![] }
    }
    fn m(&self) -> M {
        M::TupleStruct(vec![self.0.m(), self.1.m(), self.2.m()])
    }
    fn hidden(&self) -> Vec<u8> {
        vec![]
    }
    fn vals(n: usize, d: usize) -> Vec<Self> {
        let l0 = <u8 as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); let l1 = <NonZeroU8 as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); let l2 = <NonZeroU8 as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); combos(&[l0.len(), l1.len(), l2.len()], n.max(1)).into_iter().map(|c: Vec<usize>| Self(l0[c[0]].dup(), l1[c[1]].dup(), l2[c[2]].dup())).collect::<Vec<Self>>()
    }
    fn into_v(self) -> Option<Value> { Some(self.into()) }
    fn dup(&self) -> Self {
        Self(self.0.dup(), self.1.dup(), self.2.dup())
    }
    fn dfmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        std::fmt::Debug::fmt(self, f)
    }
}

#[allow(dead_code)]
#[derive(Reflect, Clone, Debug)]
pub enum DfE100 {
    A(
        u8,
        NonZeroU8,
        NonZeroU8,
    ),
    B,
}
#[allow(unused_variables, unused_mut, clippy::all)]
impl Modeled for DfE100 {
    fn t() -> T {
        T::Enum { name: std::any::type_name::<Self>(), variants: vec![VariantT { name: "A", kind: VK::Tuple, fields: vec![FieldT { name: None, ty: <u8 as Modeled>::t, with: None, meta: vec![], docs: vec![] }, FieldT { name: None, ty: <NonZeroU8 as Modeled>::t, with: None, meta: vec![], docs: vec![] }, FieldT { name: None, ty: <NonZeroU8 as Modeled>::t, with: None, meta: vec![], docs: vec![] }], meta: vec![], docs: vec![] }, VariantT { name: "B", kind: VK::Unit, fields: vec![], meta: vec![], docs: vec![] }], skipped: vec![], meta: vec![], docs: vec![] }
    }
    fn m(&self) -> M {
        match self {
            Self::A(x0, x1, x2) => M::Enum("A".into(), VK::Tuple, vec![(None, x0.m()), (None, x1.m()), (None, x2.m())]),
            Self::B => M::Enum("B".into(), VK::Unit, vec![]),
        }
    }
    fn hidden(&self) -> Vec<u8> {
        match self {
            _ => vec![],
        }
    }
    fn vals(n: usize, d: usize) -> Vec<Self> {
        let mut per: Vec<Vec<Self>> = vec![];
        per.push({ let l0 = <u8 as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); let l1 = <NonZeroU8 as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); let l2 = <NonZeroU8 as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); combos(&[l0.len(), l1.len(), l2.len()], n.max(1)).into_iter().map(|c: Vec<usize>| Self::A(l0[c[0]].dup(), l1[c[1]].dup(), l2[c[2]].dup())).collect::<Vec<Self>>() });
        per.push(vec![Self::B]);
        interleave(per, n)
    }
    fn into_v(self) -> Option<Value> { Some(self.into()) }
    fn dup(&self) -> Self {
        match self {
            Self::A(x0, x1, x2) => Self::A(x0.dup(), x1.dup(), x2.dup()),
            Self::B => Self::B,
        }
    }
    fn dfmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        std::fmt::Debug::fmt(self, f)
    }
}

#[allow(dead_code)]
#[derive(Reflect, Clone, Debug)]
pub enum DfS100 {
    A {
        a: u8,
        b: NonZeroU8,
        c: NonZeroU8,
    },
    B,
}
#[allow(unused_variables, unused_mut, clippy::all)]
impl Modeled for DfS100 {
    fn t() -> T {
        T::Enum { name: std::any::type_name::<Self>(), variants: vec![VariantT { name: "A", kind: VK::Struct, fields: vec![FieldT { name: Some("a"), ty: <u8 as Modeled>::t, with: None, meta: vec![], docs: vec![] }, FieldT { name: Some("b"), ty: <NonZeroU8 as Modeled>::t, with: None, meta: vec![], docs: vec![] }, FieldT { name: Some("c"), ty: <NonZeroU8 as Modeled>::t, with: None, meta: vec![], docs: vec![] }], meta: vec![], docs: vec![] }, VariantT { name: "B", kind: VK::Unit, fields: vec![], meta: vec![], docs: vec![] }], skipped: vec![], meta: vec![], docs: vec![] }
    }
    fn m(&self) -> M {
        match self {
            Self::A { a: x0, b: x1, c: x2 } => M::Enum("A".into(), VK::Struct, vec![(Some("a".into()), x0.m()), (Some("b".into()), x1.m()), (Some("c".into()), x2.m())]),
            Self::B => M::Enum("B".into(), VK::Unit, vec![]),
        }
    }
    fn hidden(&self) -> Vec<u8> {
        match self {
            _ => vec![],
        }
    }
    fn vals(n: usize, d: usize) -> Vec<Self> {
        let mut per: Vec<Vec<Self>> = vec![];
        per.push({ let l0 = <u8 as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); let l1 = <NonZeroU8 as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); let l2 = <NonZeroU8 as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); combos(&[l0.len(), l1.len(), l2.len()], n.max(1)).into_iter().map(|c: Vec<usize>| Self::A { a: l0[c[0]].dup(), b: l1[c[1]].dup(), c: l2[c[2]].dup() }).collect::<Vec<Self>>() });
        per.push(vec![Self::B]);
        interleave(per, n)
    }
    fn into_v(self) -> Option<Value> { Some(self.into()) }
    fn dup(&self) -> Self {
        match self {
            Self::A { a: x0, b: x1, c: x2 } => Self::A { a: x0.dup(), b: x1.dup(), c: x2.dup() },
            Self::B => Self::B,
        }
    }
    fn dfmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        std::fmt::Debug::fmt(self, f)
    }
}

#[allow(dead_code)]
#[derive(Reflect, Clone, Debug)]
pub struct Df101 {
    pub a: u8,
    pub b: NonZeroU8,
    pub c: u8,
}
#[allow(unused_variables, unused_mut, clippy::all)]
impl Modeled for Df101 {
    fn t() -> T {
        T::Struct { name: std::any::type_name::<Self>(), fields: vec![FieldT { name: Some("a"), ty: <u8 as Modeled>::t, with: None, meta: vec![], docs: vec![] }, FieldT { name: Some("b"), ty: <NonZeroU8 as Modeled>::t, with: None, meta: vec![], docs: vec![] }, FieldT { name: Some("c"), ty: <u8 as Modeled>::t, with: None, meta: vec![], docs: vec![] }], meta: vec![], docs: vec![] }
    }
    fn m(&self) -> M {
        M::Struct(vec![("a".to_owned(), self.a.m()), ("b".to_owned(), self.b.m()), ("c".to_owned(), self.c.m())])
    }
    fn hidden(&self) -> Vec<u8> {
        vec![]
    }
    fn vals(n: usize, d: usize) -> Vec<Self> {
        let l0 = <u8 as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); let l1 = <NonZeroU8 as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); let l2 = <u8 as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); combos(&[l0.len(), l1.len(), l2.len()], n.max(1)).into_iter().map(|c: Vec<usize>| Self { a: l0[c[0]].dup(), b: l1[c[1]].dup(), c: l2[c[2]].dup() }).collect::<Vec<Self>>()
    }
    fn into_v(self) -> Option<Value> { Some(self.into()) }
    fn dup(&self) -> Self {
        Self { a: self.a.dup(), b: self.b.dup(), c: self.c.dup() }
    }
    fn dfmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        std::fmt::Debug::fmt(self, f)
    }
}

#[allow(dead_code)]
#[derive(Reflect, Clone, Debug)]
pub struct DfT101(
    pub u8,
    pub NonZeroU8,
    pub u8,
);
#[allow(unused_variables, unused_mut, clippy::all)]
impl Modeled for DfT101 {
    fn t() -> T {
        T::TupleStruct { name: std::any::type_name::<Self>(), fields: vec![FieldT { name: None, ty: <u8 as Modeled>::t, with: None, meta: vec![], docs: vec![] }, FieldT { name: None, ty: <NonZeroU8 as Modeled>::t, with: None, meta: vec![], docs: vec![] }, FieldT { name: None, ty: <u8 as Modeled>::t, with: None, meta: vec![], docs: vec![] }], meta: vec![], docs: vec![] }
    }
    fn m(&self) -> M {
        M::TupleStruct(vec![self.0.m(), self.1.m(), self.2.m()])
    }
    fn hidden(&self) -> Vec<u8> {
        vec![]
    }
    fn vals(n: usize, d: usize) -> Vec<Self> {
        let l0 = <u8 as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); let l1 = <NonZeroU8 as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); let l2 = <u8 as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); combos(&[l0.len(), l1.len(), l2.len()], n.max(1)).into_iter().map(|c: Vec<usize>| Self(l0[c[0]].dup(), l1[c[1]].dup(), l2[c[2]].dup())).collect::<Vec<Self>>()
    }
    fn into_v(self) -> Option<Value> { Some(self.into()) }
    fn dup(&self) -> Self {
        Self(self.0.dup(), self.1.dup(), self.2.dup())
    }
    fn dfmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        std::fmt::Debug::fmt(self, f)
    }
}

#[allow(dead_code)]
#[derive(Reflect, Clone, Debug)]
pub enum DfE101 {
    A(
        u8,
        NonZeroU8,
        u8,
    ),
    B,
}
#[allow(unused_variables, unused_mut, clippy::all)]
impl Modeled for DfE101 {
    fn t() -> T {
        T::Enum { name: std::any::type_name::<Self>(), variants: vec![VariantT { name: "A", kind: VK::Tuple, fields: vec![FieldT { name: None, ty: <u8 as Modeled>::t, with: None, meta: vec![], docs: vec![] }, FieldT { name: None, ty: <NonZeroU8 as Modeled>::t, with: None, meta: vec![], docs: vec![] }, FieldT { name: None, ty: <u8 as Modeled>::t, with: None, meta: vec![], docs: vec![] }], meta: vec![], docs: vec![] }, VariantT { name: "B", kind: VK::Unit, fields: vec![], meta: vec![], docs: vec![] }], skipped: vec![], meta: vec![], docs: vec![] }
    }
    fn m(&self) -> M {
        match self {
            Self::A(x0, x1, x2) => M::Enum("A".into(), VK::Tuple, vec![(None, x0.m()), (None, x1.m()), (None, x2.m())]),
            Self::B => M::Enum("B".into(), VK::Unit, vec![]),
        }
    }
    fn hidden(&self) -> Vec<u8> {
        match self {
            _ => vec![],
        }
    }
    fn vals(n: usize, d: usize) -> Vec<Self> {
        let mut per: Vec<Vec<Self>> = vec![];
        per.push({ let l0 = <u8 as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); let l1 = <NonZeroU8 as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); let l2 = <u8 as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); combos(&[l0.len(), l1.len(), l2.len()], n.max(1)).into_iter().map(|c: Vec<usize>| Self::A(l0[c[0]].dup(), l1[c[1]].dup(), l2[c[2]].dup())).collect::<Vec<Self>>() });
        per.push(vec![Self::B]);
        interleave(per, n)
    }
    fn into_v(self) -> Option<Value> { Some(self.into()) }
    fn dup(&self) -> Self {
        match self {
            Self::A(x0, x1, x2) => Self::A(x0.dup(), x1.dup(), x2.dup()),
            Self::B => Self::B,
        }
    }
    fn dfmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        std::fmt::Debug::fmt(self, f)
    }
}

#[allow(dead_code)]
#[derive(Reflect, Clone, Debug)]
pub enum DfS101 {
    A {
        a: u8,
        b: NonZeroU8,
        c: u8,
    },
    B,
}
#[allow(unused_variables, unused_mut, clippy::all)]
impl Modeled for DfS101 {
    fn t() -> T {
        T::Enum { name: std::any::type_name::<Self>(), variants: vec![VariantT { name: "A", kind: VK::Struct, fields: vec![FieldT { name: Some("a"), ty: <u8 as Modeled>::t, with: None, meta: vec![], docs: vec![] }, FieldT { name: Some("b"), ty: <NonZeroU8 as Modeled>::t, with: None, meta: vec![], docs: vec![] }, FieldT { name: Some("c"), ty: <u8 as Modeled>::t, with: None, meta: vec![], docs: vec![] }], meta: vec![], docs: vec![] }, VariantT { name: "B", kind: VK::Unit, fields: vec![], meta: vec![], docs: vec![] }], skipped: vec![], meta: vec![], docs: vec![] }
    }
    fn m(&self) -> M {
        match self {
            Self::A { a: x0, b: x1, c: x2 } => M::Enum("A".into(), VK::Struct, vec![(Some("a".into()), x0.m()), (Some("b".into()), x1.m()), (Some("c".into()), x2.m())]),
            Self::B => M::Enum("B".into(), VK::Unit, vec![]),
        }
    }
    fn hidden(&self) -> Vec<u8> {
        match self {
            _ => vec![],
        }
    }
    fn vals(n: usize, d: usize) -> Vec<Self> {
        let mut per: Vec<Vec<Self>> = vec![];
        per.push({ let l0 = <u8 as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); let l1 = <NonZeroU8 as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); let l2 = <u8 as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); combos(&[l0.len(), l1.len(), l2.len()], n.max(1)).into_iter().map(|c: Vec<usize>| Self::A { a: l0[c[0]].dup(), b: l1[c[1]].dup(), c: l2[c[2]].dup() }).collect::<Vec<Self>>() });
        per.push(vec![Self::B]);
        interleave(per, n)
    }
    fn into_v(self) -> Option<Value> { Some(self.into()) }
    fn dup(&self) -> Self {
        match self {
            Self::A { a: x0, b: x1, c: x2 } => Self::A { a: x0.dup(), b: x1.dup(), c: x2.dup() },
            Self::B => Self::B,
        }
    }
    fn dfmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        std::fmt::Debug::fmt(self, f)
    }
}

#[allow(dead_code)]
#[derive(Reflect, Clone, Debug)]
pub struct Df110 {
    pub a: u8,
    pub b: u8,
    pub c: NonZeroU8,
}
#[allow(unused_variables, unused_mut, clippy::all)]
impl Modeled for Df110 {
    fn t() -> T {
        T::Struct { name: std::any::type_name::<Self>(), fields: vec![FieldT { name: Some("a"), ty: <u8 as Modeled>::t, with: None, meta: vec![], docs: vec![] }, FieldT { name: Some("b"), ty: <u8 as Modeled>::t, with: None, meta: vec![], docs: vec![] }, FieldT { name: Some("c"), ty: <NonZeroU8 as Modeled>::t, with: None, meta: vec![], docs: vec![] }], meta: vec![], docs: vec![] }
    }
    fn m(&self) -> M {
        M::Struct(vec![("a".to_owned(), self.a.m()), ("b".to_owned(), self.b.m()), ("c".to_owned(), self.c.m())])
    }
    fn hidden(&self) -> Vec<u8> {
        vec![]
    }
    fn vals(n: usize, d: usize) -> Vec<Self> {
        let l0 = <u8 as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); let l1 = <u8 as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); let l2 = <NonZeroU8 as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); combos(&[l0.len(), l1.len(), l2.len()], n.max(1)).into_iter().map(|c: Vec<usize>| Self { a: l0[c[0]].dup(), b: l1[c[1]].dup(), c: l2[c[2]].dup() }).collect::<Vec<Self>>()
    }
    fn into_v(self) -> Option<Value> { Some(self.into()) }
    fn dup(&self) -> Self {
        Self { a: self.a.dup(), b: self.b.dup(), c: self.c.dup() }
    }
    fn dfmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        std::fmt::Debug::fmt(self, f)
    }
}

#[allow(dead_code)]
#[derive(Reflect, Clone, Debug)]
pub struct DfT110(
    pub u8,
    pub u8,
    pub NonZeroU8,
);
#[allow(unused_variables, unused_mut, clippy::all)]
impl Modeled for DfT110 {
    fn t() -> T {
        T::TupleStruct { name: std::any::type_name::<Self>(), fields: vec![FieldT { name: None, ty: <u8 as Modeled>::t, with: None, meta: vec![], docs: vec![] }, FieldT { name: None, ty: <u8 as Modeled>::t, with: None, meta: vec![], docs: vec![] }, FieldT { name: None, ty: <NonZeroU8 as Modeled>::t, with: None, meta: vec![], docs: vec![] }], meta: vec![], docs: vec![] }
    }
    fn m(&self) -> M {
        M::TupleStruct(vec![self.0.m(), self.1.m(), self.2.m()])
    }
    fn hidden(&self) -> Vec<u8> {
        vec![]
    }
    fn vals(n: usize, d: usize) -> Vec<Self> {
        let l0 = <u8 as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); let l1 = <u8 as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); let l2 = <NonZeroU8 as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); combos(&[l0.len(), l1.len(), l2.len()], n.max(1)).into_iter().map(|c: Vec<usize>| Self(l0[c[0]].dup(), l1[c[1]].dup(), l2[c[2]].dup())).collect::<Vec<Self>>()
    }
    fn into_v(self) -> Option<Value> { Some(self.into()) }
    fn dup(&self) -> Self {
        Self(self.0.dup(), self.1.dup(), self.2.dup())
    }
    fn dfmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        std::fmt::Debug::fmt(self, f)
    }
}

#[allow(dead_code)]
#[derive(Reflect, Clone, Debug)]
pub enum DfE110 {
    A(
        u8,
        u8,
        NonZeroU8,
    ),
    B,
}
#[allow(unused_variables, unused_mut, clippy::all)]
impl Modeled for DfE110 {
    fn t() -> T {
        T::Enum { name: std::any::type_name::<Self>(), variants: vec![VariantT { name: "A", kind: VK::Tuple, fields: vec![FieldT { name: None, ty: <u8 as Modeled>::t, with: None, meta: vec![], docs: vec![] }, FieldT { name: None, ty: <u8 as Modeled>::t, with: None, meta: vec![], docs: vec![] }, FieldT { name: None, ty: <NonZeroU8 as Modeled>::t, with: None, meta: vec![], docs: vec![] }], meta: vec![], docs: vec![] }, VariantT { name: "B", kind: VK::Unit, fields: vec![], meta: vec![], docs: vec![] }], skipped: vec![], meta: vec![], docs: vec![] }
    }
    fn m(&self) -> M {
        match self {
            Self::A(x0, x1, x2) => M::Enum("A".into(), VK::Tuple, vec![(None, x0.m()), (None, x1.m()), (None, x2.m())]),
            Self::B => M::Enum("B".into(), VK::Unit, vec![]),
        }
    }
    fn hidden(&self) -> Vec<u8> {
        match self {
            _ => vec![],
        }
    }
    fn vals(n: usize, d: usize) -> Vec<Self> {
        let mut per: Vec<Vec<Self>> = vec![];
        per.push({ let l0 = <u8 as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); let l1 = <u8 as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); let l2 = <NonZeroU8 as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); combos(&[l0.len(), l1.len(), l2.len()], n.max(1)).into_iter().map(|c: Vec<usize>| Self::A(l0[c[0]].dup(), l1[c[1]].dup(), l2[c[2]].dup())).collect::<Vec<Self>>() });
        per.push(vec![Self::B]);
        interleave(per, n)
    }
    fn into_v(self) -> Option<Value> { Some(self.into()) }
    fn dup(&self) -> Self {
        match self {
            Self::A(x0, x1, x2) => Self::A(x0.dup(), x1.dup(), x2.dup()),
            Self::B => Self::B,
        }
    }
    fn dfmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        std::fmt::Debug::fmt(self, f)
    }
}

#[allow(dead_code)]
#[derive(Reflect, Clone, Debug)]
pub enum DfS110 {
    A {
        a: u8,
        b: u8,
        c: NonZeroU8,
    },
    B,
}
#[allow(unused_variables, unused_mut, clippy::all)]
impl Modeled for DfS110 {
    fn t() -> T {
        T::Enum { name: std::any::type_name::<Self>(), variants: vec![VariantT { name: "A", kind: VK::Struct, fields: vec![FieldT { name: Some("a"), ty: <u8 as Modeled>::t, with: None, meta: vec![], docs: vec![] }, FieldT { name: Some("b"), ty: <u8 as Modeled>::t, with: None, meta: vec![], docs: vec![] }, FieldT { name: Some("c"), ty: <NonZeroU8 as Modeled>::t, with: None, meta: vec![], docs: vec![] }], meta: vec![], docs: vec![] }, VariantT { name: "B", kind: VK::Unit, fields: vec![], meta: vec![], docs: vec![] }], skipped: vec![], meta: vec![], docs: vec![] }
    }
    fn m(&self) -> M {
        match self {
            Self::A { a: x0, b: x1, c: x2 } => M::Enum("A".into(), VK::Struct, vec![(Some("a".into()), x0.m()), (Some("b".into()), x1.m()), (Some("c".into()), x2.m())]),
            Self::B => M::Enum("B".into(), VK::Unit, vec![]),
        }
    }
    fn hidden(&self) -> Vec<u8> {
        match self {
            _ => vec![],
        }
    }
    fn vals(n: usize, d: usize) -> Vec<Self> {
        let mut per: Vec<Vec<Self>> = vec![];
        per.push({ let l0 = <u8 as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); let l1 = <u8 as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); let l2 = <NonZeroU8 as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); combos(&[l0.len(), l1.len(), l2.len()], n.max(1)).into_iter().map(|c: Vec<usize>| Self::A { a: l0[c[0]].dup(), b: l1[c[1]].dup(), c: l2[c[2]].dup() }).collect::<Vec<Self>>() });
        per.push(vec![Self::B]);
        interleave(per, n)
    }
    fn into_v(self) -> Option<Value> { Some(self.into()) }
    fn dup(&self) -> Self {
        match self {
            Self::A { a: x0, b: x1, c: x2 } => Self::A { a: x0.dup(), b: x1.dup(), c: x2.dup() },
            Self::B => Self::B,
        }
    }
    fn dfmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        std::fmt::Debug::fmt(self, f)
    }
}

#[allow(dead_code)]
#[derive(Reflect, Clone, Debug)]
pub struct Df111 {
    pub a: u8,
    pub b: u8,
    pub c: u8,
}
#[allow(unused_variables, unused_mut, clippy::all)]
impl Modeled for Df111 {
    fn t() -> T {
        T::Struct { name: std::any::type_name::<Self>(), fields: vec![FieldT { name: Some("a"), ty: <u8 as Modeled>::t, with: None, meta: vec![], docs: vec![] }, FieldT { name: Some("b"), ty: <u8 as Modeled>::t, with: None, meta: vec![], docs: vec![] }, FieldT { name: Some("c"), ty: <u8 as Modeled>::t, with: None, meta: vec![], docs: vec![] }], meta: vec![], docs: vec![] }
    }
    fn m(&self) -> M {
        M::Struct(vec![("a".to_owned(), self.a.m()), ("b".to_owned(), self.b.m()), ("c".to_owned(), self.c.m())])
    }
    fn hidden(&self) -> Vec<u8> {
        vec![]
    }
    fn vals(n: usize, d: usize) -> Vec<Self> {
        let l0 = <u8 as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); let l1 = <u8 as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); let l2 = <u8 as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); combos(&[l0.len(), l1.len(), l2.len()], n.max(1)).into_iter().map(|c: Vec<usize>| Self { a: l0[c[0]].dup(), b: l1[c[1]].dup(), c: l2[c[2]].dup() }).collect::<Vec<Self>>()
    }
    fn into_v(self) -> Option<Value> { Some(self.into()) }
    fn dup(&self) -> Self {
        Self { a: self.a.dup(), b: self.b.dup(), c: self.c.dup() }
    }
    fn dfmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        std::fmt::Debug::fmt(self, f)
    }
}

#[allow(dead_code)]
#[derive(Reflect, Clone, Debug)]
pub struct DfT111(
    pub u8,
    pub u8,
    pub u8,
);
#[allow(unused_variables, unused_mut, clippy::all)]
impl Modeled for DfT111 {
    fn t() -> T {
        T::TupleStruct { name: std::any::type_name::<Self>(), fields: vec![FieldT { name: None, ty: <u8 as Modeled>::t, with: None, meta: vec![], docs: vec![] }, FieldT { name: None, ty: <u8 as Modeled>::t, with: None, meta: vec![], docs: vec![] }, FieldT { name: None, ty: <u8 as Modeled>::t, with: None, meta: vec![], docs: vec![] }], meta: vec![], docs: vec![] }
    }
    fn m(&self) -> M {
        M::TupleStruct(vec![self.0.m(), self.1.m(), self.2.m()])
    }
    fn hidden(&self) -> Vec<u8> {
        vec![]
    }
    fn vals(n: usize, d: usize) -> Vec<Self> {
        let l0 = <u8 as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); let l1 = <u8 as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); let l2 = <u8 as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); combos(&[l0.len(), l1.len(), l2.len()], n.max(1)).into_iter().map(|c: Vec<usize>| Self(l0[c[0]].dup(), l1[c[1]].dup(), l2[c[2]].dup())).collect::<Vec<Self>>()
    }
    fn into_v(self) -> Option<Value> { Some(self.into()) }
    fn dup(&self) -> Self {
        Self(self.0.dup(), self.1.dup(), self.2.dup())
    }
    fn dfmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        std::fmt::Debug::fmt(self, f)
    }
}

#[allow(dead_code)]
#[derive(Reflect, Clone, Debug)]
pub enum DfE111 {
    A(
        u8,
        u8,
        u8,
    ),
    B,
}
#[allow(unused_variables, unused_mut, clippy::all)]
impl Modeled for DfE111 {
    fn t() -> T {
        T::Enum { name: std::any::type_name::<Self>(), variants: vec![VariantT { name: "A", kind: VK::Tuple, fields: vec![FieldT { name: None, ty: <u8 as Modeled>::t, with: None, meta: vec![], docs: vec![] }, FieldT { name: None, ty: <u8 as Modeled>::t, with: None, meta: vec![], docs: vec![] }, FieldT { name: None, ty: <u8 as Modeled>::t, with: None, meta: vec![], docs: vec![] }], meta: vec![], docs: vec![] }, VariantT { name: "B", kind: VK::Unit, fields: vec![], meta: vec![], docs: vec![] }], skipped: vec![], meta: vec![], docs: vec![] }
    }
    fn m(&self) -> M {
        match self {
            Self::A(x0, x1, x2) => M::Enum("A".into(), VK::Tuple, vec![(None, x0.m()), (None, x1.m()), (None, x2.m())]),
            Self::B => M::Enum("B".into(), VK::Unit, vec![]),
        }
    }
    fn hidden(&self) -> Vec<u8> {
        match self {
            _ => vec![],
        }
    }
    fn vals(n: usize, d: usize) -> Vec<Self> {
        let mut per: Vec<Vec<Self>> = vec![];
        per.push({ let l0 = <u8 as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); let l1 = <u8 as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); let l2 = <u8 as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); combos(&[l0.len(), l1.len(), l2.len()], n.max(1)).into_iter().map(|c: Vec<usize>| Self::A(l0[c[0]].dup(), l1[c[1]].dup(), l2[c[2]].dup())).collect::<Vec<Self>>() });
        per.push(vec![Self::B]);
        interleave(per, n)
    }
    fn into_v(self) -> Option<Value> { Some(self.into()) }
    fn dup(&self) -> Self {
        match self {
            Self::A(x0, x1, x2) => Self::A(x0.dup(), x1.dup(), x2.dup()),
            Self::B => Self::B,
        }
    }
    fn dfmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        std::fmt::Debug::fmt(self, f)
    }
}

#[allow(dead_code)]
#[derive(Reflect, Clone, Debug)]
pub enum DfS111 {
    A {
        a: u8,
        b: u8,
        c: u8,
    },
    B,
}
#[allow(unused_variables, unused_mut, clippy::all)]
impl Modeled for DfS111 {
    fn t() -> T {
        T::Enum { name: std::any::type_name::<Self>(), variants: vec![VariantT { name: "A", kind: VK::Struct, fields: vec![FieldT { name: Some("a"), ty: <u8 as Modeled>::t, with: None, meta: vec![], docs: vec![] }, FieldT { name: Some("b"), ty: <u8 as Modeled>::t, with: None, meta: vec![], docs: vec![] }, FieldT { name: Some("c"), ty: <u8 as Modeled>::t, with: None, meta: vec![], docs: vec![] }], meta: vec![], docs: vec![] }, VariantT { name: "B", kind: VK::Unit, fields: vec![], meta: vec![], docs: vec![] }], skipped: vec![], meta: vec![], docs: vec![] }
    }
    fn m(&self) -> M {
        match self {
            Self::A { a: x0, b: x1, c: x2 } => M::Enum("A".into(), VK::Struct, vec![(Some("a".into()), x0.m()), (Some("b".into()), x1.m()), (Some("c".into()), x2.m())]),
            Self::B => M::Enum("B".into(), VK::Unit, vec![]),
        }
    }
    fn hidden(&self) -> Vec<u8> {
        match self {
            _ => vec![],
        }
    }
    fn vals(n: usize, d: usize) -> Vec<Self> {
        let mut per: Vec<Vec<Self>> = vec![];
        per.push({ let l0 = <u8 as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); let l1 = <u8 as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); let l2 = <u8 as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); combos(&[l0.len(), l1.len(), l2.len()], n.max(1)).into_iter().map(|c: Vec<usize>| Self::A { a: l0[c[0]].dup(), b: l1[c[1]].dup(), c: l2[c[2]].dup() }).collect::<Vec<Self>>() });
        per.push(vec![Self::B]);
        interleave(per, n)
    }
    fn into_v(self) -> Option<Value> { Some(self.into()) }
    fn dup(&self) -> Self {
        match self {
            Self::A { a: x0, b: x1, c: x2 } => Self::A { a: x0.dup(), b: x1.dup(), c: x2.dup() },
            Self::B => Self::B,
        }
    }
    fn dfmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        std::fmt::Debug::fmt(self, f)
    }
}

#[allow(dead_code)]
#[derive(Reflect, Clone, Debug)]
pub enum DfFirstSkipped {
    #[reflect(skip)]
    A,
    B(
        NonZeroU8,
    ),
    C,
}
#[allow(unused_variables, unused_mut, clippy::all)]
impl Modeled for DfFirstSkipped {
    fn t() -> T {
        T::Enum { name: std::any::type_name::<Self>(), variants: vec![VariantT { name: "B", kind: VK::Tuple, fields: vec![FieldT { name: None, ty: <NonZeroU8 as Modeled>::t, with: None, meta: vec![], docs: vec![] }], meta: vec![], docs: vec![] }, VariantT { name: "C", kind: VK::Unit, fields: vec![], meta: vec![], docs: vec![] }], skipped: vec!["A"], meta: vec![], docs: vec![] }
    }
    fn m(&self) -> M {
        match self {
            Self::A => M::Enum("A".into(), VK::Unit, vec![]),
            Self::B(x0) => M::Enum("B".into(), VK::Tuple, vec![(None, x0.m())]),
            Self::C => M::Enum("C".into(), VK::Unit, vec![]),
        }
    }
    fn hidden(&self) -> Vec<u8> {
        match self {
            _ => vec![],
        }
    }
    fn vals(n: usize, d: usize) -> Vec<Self> {
        let mut per: Vec<Vec<Self>> = vec![];
        per.push({ let l0 = <NonZeroU8 as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); combos(&[l0.len()], n.max(1)).into_iter().map(|c: Vec<usize>| Self::B(l0[c[0]].dup())).collect::<Vec<Self>>() });
        per.push(vec![Self::C]);
        interleave(per, n)
    }
    fn into_v(self) -> Option<Value> { Some(self.into()) }
    fn dup(&self) -> Self {
        match self {
            Self::A => Self::A,
            Self::B(x0) => Self::B(x0.dup()),
            Self::C => Self::C,
        }
    }
    fn dfmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        std::fmt::Debug::fmt(self, f)
    }
}

#[allow(dead_code)]
#[derive(Reflect, Clone, Debug)]
pub enum DfFirstSkipped2 {
    #[reflect(skip)]
    A(
        NonZeroU8,
    ),
    B(
        u8,
    ),
    C,
}
#[allow(unused_variables, unused_mut, clippy::all)]
impl Modeled for DfFirstSkipped2 {
    fn t() -> T {
        T::Enum { name: std::any::type_name::<Self>(), variants: vec![VariantT { name: "B", kind: VK::Tuple, fields: vec![FieldT { name: None, ty: <u8 as Modeled>::t, with: None, meta: vec![], docs: vec![] }], meta: vec![], docs: vec![] }, VariantT { name: "C", kind: VK::Unit, fields: vec![], meta: vec![], docs: vec![] }], skipped: vec!["A"], meta: vec![], docs: vec![] }
    }
    fn m(&self) -> M {
        match self {
            Self::A(x0) => M::Enum("A".into(), VK::Tuple, vec![]),
            Self::B(x0) => M::Enum("B".into(), VK::Tuple, vec![(None, x0.m())]),
            Self::C => M::Enum("C".into(), VK::Unit, vec![]),
        }
    }
    fn hidden(&self) -> Vec<u8> {
        match self {
            _ => vec![],
        }
    }
    fn vals(n: usize, d: usize) -> Vec<Self> {
        let mut per: Vec<Vec<Self>> = vec![];
        per.push({ let l0 = <u8 as Modeled>::vals(wide(n, 4), d.saturating_sub(1)); combos(&[l0.len()], n.max(1)).into_iter().map(|c: Vec<usize>| Self::B(l0[c[0]].dup())).collect::<Vec<Self>>() });
        per.push(vec![Self::C]);
        interleave(per, n)
    }
    fn into_v(self) -> Option<Value> { Some(self.into()) }
    fn dup(&self) -> Self {
        match self {
            Self::A(x0) => Self::A(x0.dup()),
            Self::B(x0) => Self::B(x0.dup()),
            Self::C => Self::C,
        }
    }
    fn dfmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        std::fmt::Debug::fmt(self, f)
    }
}

#[rustfmt::skip]
pub fn universe() -> Vec<TyInfo> {
    #[allow(unused_mut)]
    let mut out = vec![
        ty::<S0m0>(),
        ty::<T0m0>(),
        ty::<E0m0>(),
        ty::<S1m0>(),
        ty::<T1m0>(),
        ty::<E1m0>(),
        ty::<S1m1>(),
        ty::<T1m1>(),
        ty::<E1m1>(),
        ty::<S2m0>(),
        ty::<T2m0>(),
        ty::<E2m0>(),
        ty::<S2m1>(),
        ty::<T2m1>(),
        ty::<E2m1>(),
        ty::<S2m2>(),
        ty::<T2m2>(),
        ty::<E2m2>(),
        ty::<S2m3>(),
        ty::<T2m3>(),
        ty::<E2m3>(),
        ty::<S3m0>(),
        ty::<T3m0>(),
        ty::<E3m0>(),
        ty::<S3m1>(),
        ty::<T3m1>(),
        ty::<E3m1>(),
        ty::<S3m2>(),
        ty::<T3m2>(),
        ty::<E3m2>(),
        ty::<S3m3>(),
        ty::<T3m3>(),
        ty::<E3m3>(),
        ty::<S3m4>(),
        ty::<T3m4>(),
        ty::<E3m4>(),
        ty::<S3m5>(),
        ty::<T3m5>(),
        ty::<E3m5>(),
        ty::<S3m6>(),
        ty::<T3m6>(),
        ty::<E3m6>(),
        ty::<S3m7>(),
        ty::<T3m7>(),
        ty::<E3m7>(),
        ty::<Unit>(),
        ty::<SameS0>(),
        ty::<SameT0>(),
        ty::<SameE0>(),
        ty::<SameS1>(),
        ty::<SameT1>(),
        ty::<SameE1>(),
        ty::<SameS2>(),
        ty::<SameT2>(),
        ty::<SameE2>(),
        ty::<SameS4>(),
        ty::<SameT4>(),
        ty::<SameE4>(),
        ty::<SameS5>(),
        ty::<SameT5>(),
        ty::<SameE5>(),
        ty::<SameS9>(),
        ty::<SameT9>(),
        ty::<SameE9>(),
        ty::<Perm0>(),
        ty::<PermE0>(),
        ty::<Perm1>(),
        ty::<PermE1>(),
        ty::<Perm2>(),
        ty::<PermE2>(),
        ty::<Perm3>(),
        ty::<PermE3>(),
        ty::<Perm4>(),
        ty::<PermE4>(),
        ty::<Perm5>(),
        ty::<PermE5>(),
        ty::<Wide20>(),
        ty::<WideT20>(),
        ty::<WideE20>(),
        ty::<Wide12>(),
        ty::<WideT12>(),
        ty::<WideE12>(),
        ty::<SkipV0>(),
        ty::<SkipV1>(),
        ty::<SkipV2>(),
        ty::<SkipV3>(),
        ty::<SkipV4>(),
        ty::<SkipV5>(),
        ty::<SkipV6>(),
        ty::<SkipFirst>(),
        ty::<Empties>(),
        ty::<OneUnit>(),
        ty::<OneTuple>(),
        ty::<OneStruct>(),
        ty::<Units>(),
        ty::<Overlap>(),
        ty::<OptDS>(),
        ty::<OptDT>(),
        ty::<OptDE>(),
        ty::<OptCS>(),
        ty::<OptCT>(),
        ty::<OptCE>(),
        ty::<OptFS>(),
        ty::<OptFT>(),
        ty::<OptFE>(),
        ty::<OptDCS>(),
        ty::<OptDCT>(),
        ty::<OptDCE>(),
        ty::<OptDFS>(),
        ty::<OptDFT>(),
        ty::<OptDFE>(),
        ty::<OptCFS>(),
        ty::<OptCFT>(),
        ty::<OptCFE>(),
        ty::<OptDCFS>(),
        ty::<OptDCFT>(),
        ty::<OptDCFE>(),
        ty::<OptUnit>(),
        ty::<HoldsOpt>(),
        ty::<HoldsOptD>(),
        ty::<With0S>(),
        ty::<With0T>(),
        ty::<With0E>(),
        ty::<With1S>(),
        ty::<With1T>(),
        ty::<With1E>(),
        ty::<With2S>(),
        ty::<With2T>(),
        ty::<With2E>(),
        ty::<WithAllS>(),
        ty::<WithAllT>(),
        ty::<WithAllE>(),
        ty::<WithCloneS>(),
        ty::<WithCloneT>(),
        ty::<WithCloneE>(),
        ty::<Nasty0S>(),
        ty::<Nasty0E>(),
        ty::<Nasty0K>(),
        ty::<Nasty1S>(),
        ty::<Nasty1E>(),
        ty::<Nasty1K>(),
        ty::<Nasty2S>(),
        ty::<Nasty2E>(),
        ty::<Nasty2K>(),
        ty::<Nasty3S>(),
        ty::<Nasty3E>(),
        ty::<Nasty3K>(),
        ty::<Nasty4S>(),
        ty::<Nasty4E>(),
        ty::<Nasty4K>(),
        ty::<Nasty5S>(),
        ty::<Nasty5E>(),
        ty::<Nasty5K>(),
        ty::<Nasty6S>(),
        ty::<Nasty6E>(),
        ty::<Nasty6K>(),
        ty::<Nasty7S>(),
        ty::<Nasty7E>(),
        ty::<Nasty7K>(),
        ty::<Nasty8S>(),
        ty::<Nasty8E>(),
        ty::<Nasty8K>(),
        ty::<G2<u8, String>>(),
        ty::<G2<String, u8>>(),
        ty::<G2<u8, u8>>(),
        ty::<G2<G2<u8, String>, bool>>(),
        ty::<GT2<u8, String>>(),
        ty::<GT2<String, u8>>(),
        ty::<GT2<Option<u8>, Vec<u8>>>(),
        ty::<GE2<u8, String>>(),
        ty::<GE2<String, u8>>(),
        ty::<GE2<u8, u8>>(),
        ty::<GC<0>>(),
        ty::<GC<1>>(),
        ty::<GC<3>>(),
        ty::<RList>(),
        ty::<RTree>(),
        ty::<RMap>(),
        ty::<RTup>(),
        ty::<RVec>(),
        ty::<REnum>(),
        ty::<MutA>(),
        ty::<MutB>(),
        ty::<MutC>(),
        ty::<RGen<u8>>(),
        ty::<RGen<String>>(),
        ty::<dup_a::Dup>(),
        ty::<dup_a::DupE>(),
        ty::<dup_b::Dup>(),
        ty::<dup_b::DupE>(),
        ty::<DupBoth>(),
        ty::<SameA>(),
        ty::<SameB>(),
        ty::<SameEA>(),
        ty::<SameEB>(),
        ty::<SameBoth>(),
        ty::<SameDeep>(),
        ty::<MetaS>(),
        ty::<MetaT>(),
        ty::<MetaE>(),
        ty::<NoMeta>(),
        ty::<MetaU>(),
        ty::<OddS>(),
        ty::<OddT>(),
        ty::<OddE>(),
        ty::<PlS0m>(),
        ty::<PlT0m>(),
        ty::<PlS0d>(),
        ty::<PlT0d>(),
        ty::<PlS0x>(),
        ty::<PlT0x>(),
        ty::<PlS1m>(),
        ty::<PlT1m>(),
        ty::<PlS1d>(),
        ty::<PlT1d>(),
        ty::<PlS1x>(),
        ty::<PlT1x>(),
        ty::<PlS2m>(),
        ty::<PlT2m>(),
        ty::<PlS2d>(),
        ty::<PlT2d>(),
        ty::<PlS2x>(),
        ty::<PlT2x>(),
        ty::<PlS3m>(),
        ty::<PlT3m>(),
        ty::<PlS3d>(),
        ty::<PlT3d>(),
        ty::<PlS3x>(),
        ty::<PlT3x>(),
        ty::<PlSall>(),
        ty::<PlTall>(),
        ty::<PlE0m>(),
        ty::<PlE0d>(),
        ty::<PlE0x>(),
        ty::<PlE1m>(),
        ty::<PlE1d>(),
        ty::<PlE1x>(),
        ty::<PlE2m>(),
        ty::<PlE2d>(),
        ty::<PlE2x>(),
        ty::<PlE3m>(),
        ty::<PlE3d>(),
        ty::<PlE3x>(),
        ty::<PlE4m>(),
        ty::<PlE4d>(),
        ty::<PlE4x>(),
        ty::<PlE5m>(),
        ty::<PlE5d>(),
        ty::<PlE5x>(),
        ty::<PlE6m>(),
        ty::<PlE6d>(),
        ty::<PlE6x>(),
        ty::<PlE7m>(),
        ty::<PlE7d>(),
        ty::<PlE7x>(),
        ty::<PlE8m>(),
        ty::<PlE8d>(),
        ty::<PlE8x>(),
        ty::<PlEall>(),
        ty::<HoldsDyn>(),
        ty::<HoldsDynT>(),
        ty::<HoldsDynE>(),
        ty::<HoldsOp>(),
        ty::<HoldsOpT>(),
        ty::<HoldsOpE>(),
        ty::<Deep>(),
        ty::<DeepE>(),
        ty::<Wide>(),
        ty::<WideT>(),
        ty::<usize>(),
        ty::<u8>(),
        ty::<u16>(),
        ty::<u32>(),
        ty::<u64>(),
        ty::<u128>(),
        ty::<i8>(),
        ty::<i16>(),
        ty::<i32>(),
        ty::<i64>(),
        ty::<i128>(),
        ty::<bool>(),
        ty::<char>(),
        ty::<f32>(),
        ty::<f64>(),
        ty::<String>(),
        ty::<NonZeroUsize>(),
        ty::<NonZeroU8>(),
        ty::<NonZeroU16>(),
        ty::<NonZeroU32>(),
        ty::<NonZeroU64>(),
        ty::<NonZeroU128>(),
        ty::<NonZeroI8>(),
        ty::<NonZeroI16>(),
        ty::<NonZeroI32>(),
        ty::<NonZeroI64>(),
        ty::<NonZeroI128>(),
        ty::<Duration>(),
        ty::<Value>(),
        ty::<mirror_mirror::struct_::StructValue>(),
        ty::<mirror_mirror::enum_::EnumValue>(),
        ty::<mirror_mirror::tuple::TupleValue>(),
        ty::<mirror_mirror::tuple_struct::TupleStructValue>(),
        ty::<OpA>(),
        ty::<OpB>(),
        ty::<RangeFull>(),
        ty::<std::convert::Infallible>(),
        ty::<()>(),
        ty::<(String, )>(),
        ty::<(String, u8, )>(),
        ty::<(String, u8, u8, )>(),
        ty::<(String, u8, u8, String, )>(),
        ty::<(String, u8, u8, String, u8, )>(),
        ty::<(String, u8, u8, String, u8, u8, )>(),
        ty::<(String, u8, u8, String, u8, u8, String, )>(),
        ty::<(String, u8, u8, String, u8, u8, String, u8, )>(),
        ty::<(String, u8, u8, String, u8, u8, String, u8, u8, )>(),
        ty::<(String, u8, u8, String, u8, u8, String, u8, u8, String, )>(),
        ty::<(String, u8, u8, String, u8, u8, String, u8, u8, String, u8, )>(),
        ty::<(String, u8, u8, String, u8, u8, String, u8, u8, String, u8, u8, )>(),
        ty::<(String, u8, u8, String, u8, u8, String, u8, u8, String, u8, u8, String, )>(),
        ty::<(String, u8, u8, String, u8, u8, String, u8, u8, String, u8, u8, String, u8, )>(),
        ty::<(String, u8, u8, String, u8, u8, String, u8, u8, String, u8, u8, String, u8, u8, )>(),
        ty::<(String, u8, u8, String, u8, u8, String, u8, u8, String, u8, u8, String, u8, u8, String, )>(),
        ty::<Range<u8>>(),
        ty::<RangeFrom<String>>(),
        ty::<RangeTo<u8>>(),
        ty::<RangeToInclusive<i32>>(),
        ty::<Range<Option<u8>>>(),
        ty::<Option<u8>>(),
        ty::<Vec<u8>>(),
        ty::<BTreeMap<u8, u8>>(),
        ty::<(u8, u8)>(),
        ty::<[u8; 2]>(),
        ty::<Box<u8>>(),
        ty::<G<u8>>(),
        ty::<GT<u8>>(),
        ty::<GE<u8>>(),
        ty::<Option<String>>(),
        ty::<Vec<String>>(),
        ty::<BTreeMap<u8, String>>(),
        ty::<(String, u8)>(),
        ty::<[String; 2]>(),
        ty::<Box<String>>(),
        ty::<G<String>>(),
        ty::<GT<String>>(),
        ty::<GE<String>>(),
        ty::<Option<f32>>(),
        ty::<Vec<f32>>(),
        ty::<BTreeMap<u8, f32>>(),
        ty::<(f32, u8)>(),
        ty::<[f32; 2]>(),
        ty::<Box<f32>>(),
        ty::<G<f32>>(),
        ty::<GT<f32>>(),
        ty::<GE<f32>>(),
        ty::<Option<NonZeroU8>>(),
        ty::<Vec<NonZeroU8>>(),
        ty::<BTreeMap<u8, NonZeroU8>>(),
        ty::<(NonZeroU8, u8)>(),
        ty::<[NonZeroU8; 2]>(),
        ty::<Box<NonZeroU8>>(),
        ty::<G<NonZeroU8>>(),
        ty::<GT<NonZeroU8>>(),
        ty::<GE<NonZeroU8>>(),
        ty::<Option<Duration>>(),
        ty::<Vec<Duration>>(),
        ty::<BTreeMap<u8, Duration>>(),
        ty::<(Duration, u8)>(),
        ty::<[Duration; 2]>(),
        ty::<Box<Duration>>(),
        ty::<G<Duration>>(),
        ty::<GT<Duration>>(),
        ty::<GE<Duration>>(),
        ty::<Option<Option<u8>>>(),
        ty::<Vec<Option<u8>>>(),
        ty::<BTreeMap<u8, Option<u8>>>(),
        ty::<(Option<u8>, u8)>(),
        ty::<[Option<u8>; 2]>(),
        ty::<Box<Option<u8>>>(),
        ty::<G<Option<u8>>>(),
        ty::<GT<Option<u8>>>(),
        ty::<GE<Option<u8>>>(),
        ty::<Option<Vec<u8>>>(),
        ty::<Vec<Vec<u8>>>(),
        ty::<BTreeMap<u8, Vec<u8>>>(),
        ty::<(Vec<u8>, u8)>(),
        ty::<[Vec<u8>; 2]>(),
        ty::<Box<Vec<u8>>>(),
        ty::<G<Vec<u8>>>(),
        ty::<GT<Vec<u8>>>(),
        ty::<GE<Vec<u8>>>(),
        ty::<Option<[u8; 2]>>(),
        ty::<Vec<[u8; 2]>>(),
        ty::<BTreeMap<u8, [u8; 2]>>(),
        ty::<([u8; 2], u8)>(),
        ty::<[[u8; 2]; 2]>(),
        ty::<Box<[u8; 2]>>(),
        ty::<G<[u8; 2]>>(),
        ty::<GT<[u8; 2]>>(),
        ty::<GE<[u8; 2]>>(),
        ty::<Option<BTreeMap<u8, String>>>(),
        ty::<Vec<BTreeMap<u8, String>>>(),
        ty::<BTreeMap<u8, BTreeMap<u8, String>>>(),
        ty::<(BTreeMap<u8, String>, u8)>(),
        ty::<[BTreeMap<u8, String>; 2]>(),
        ty::<Box<BTreeMap<u8, String>>>(),
        ty::<G<BTreeMap<u8, String>>>(),
        ty::<GT<BTreeMap<u8, String>>>(),
        ty::<GE<BTreeMap<u8, String>>>(),
        ty::<Option<(u8, String)>>(),
        ty::<Vec<(u8, String)>>(),
        ty::<BTreeMap<u8, (u8, String)>>(),
        ty::<((u8, String), u8)>(),
        ty::<[(u8, String); 2]>(),
        ty::<Box<(u8, String)>>(),
        ty::<G<(u8, String)>>(),
        ty::<GT<(u8, String)>>(),
        ty::<GE<(u8, String)>>(),
        ty::<Option<S2m0>>(),
        ty::<Vec<S2m0>>(),
        ty::<BTreeMap<u8, S2m0>>(),
        ty::<(S2m0, u8)>(),
        ty::<[S2m0; 2]>(),
        ty::<Box<S2m0>>(),
        ty::<G<S2m0>>(),
        ty::<GT<S2m0>>(),
        ty::<GE<S2m0>>(),
        ty::<Option<T2m0>>(),
        ty::<Vec<T2m0>>(),
        ty::<BTreeMap<u8, T2m0>>(),
        ty::<(T2m0, u8)>(),
        ty::<[T2m0; 2]>(),
        ty::<Box<T2m0>>(),
        ty::<G<T2m0>>(),
        ty::<GT<T2m0>>(),
        ty::<GE<T2m0>>(),
        ty::<Option<E2m0>>(),
        ty::<Vec<E2m0>>(),
        ty::<BTreeMap<u8, E2m0>>(),
        ty::<(E2m0, u8)>(),
        ty::<[E2m0; 2]>(),
        ty::<Box<E2m0>>(),
        ty::<G<E2m0>>(),
        ty::<GT<E2m0>>(),
        ty::<GE<E2m0>>(),
        ty::<Option<Value>>(),
        ty::<Vec<Value>>(),
        ty::<BTreeMap<u8, Value>>(),
        ty::<(Value, u8)>(),
        ty::<[Value; 2]>(),
        ty::<Box<Value>>(),
        ty::<G<Value>>(),
        ty::<GT<Value>>(),
        ty::<GE<Value>>(),
        ty::<Option<Box<u8>>>(),
        ty::<Vec<Box<u8>>>(),
        ty::<BTreeMap<u8, Box<u8>>>(),
        ty::<(Box<u8>, u8)>(),
        ty::<[Box<u8>; 2]>(),
        ty::<G<Box<u8>>>(),
        ty::<GT<Box<u8>>>(),
        ty::<GE<Box<u8>>>(),
        ty::<Option<OpA>>(),
        ty::<Vec<OpA>>(),
        ty::<BTreeMap<u8, OpA>>(),
        ty::<(OpA, u8)>(),
        ty::<[OpA; 2]>(),
        ty::<Box<OpA>>(),
        ty::<G<OpA>>(),
        ty::<GT<OpA>>(),
        ty::<GE<OpA>>(),
        ty::<Option<S3m2>>(),
        ty::<Vec<S3m2>>(),
        ty::<BTreeMap<u8, S3m2>>(),
        ty::<(S3m2, u8)>(),
        ty::<[S3m2; 2]>(),
        ty::<Box<S3m2>>(),
        ty::<G<S3m2>>(),
        ty::<GT<S3m2>>(),
        ty::<GE<S3m2>>(),
        ty::<Option<E3m2>>(),
        ty::<Vec<E3m2>>(),
        ty::<BTreeMap<u8, E3m2>>(),
        ty::<(E3m2, u8)>(),
        ty::<[E3m2; 2]>(),
        ty::<Box<E3m2>>(),
        ty::<G<E3m2>>(),
        ty::<GT<E3m2>>(),
        ty::<GE<E3m2>>(),
        ty::<Option<Unit>>(),
        ty::<Vec<Unit>>(),
        ty::<BTreeMap<u8, Unit>>(),
        ty::<(Unit, u8)>(),
        ty::<[Unit; 2]>(),
        ty::<Box<Unit>>(),
        ty::<G<Unit>>(),
        ty::<GT<Unit>>(),
        ty::<GE<Unit>>(),
        ty::<[u8; 0]>(),
        ty::<[u8; 1]>(),
        ty::<[u8; 3]>(),
        ty::<[String; 4]>(),
        ty::<[NonZeroU8; 0]>(),
        ty::<Result<u8, String>>(),
        ty::<Result<(), Vec<u8>>>(),
        ty::<Result<S2m0, E2m0>>(),
        ty::<Vec<Vec<Option<u8>>>>(),
        ty::<BTreeMap<String, u8>>(),
        ty::<BTreeMap<(u8, String), u8>>(),
        ty::<BTreeMap<S2m0, u8>>(),
        ty::<BTreeMap<E2m0, u8>>(),
        ty::<BTreeMap<Vec<u8>, u8>>(),
        ty::<BTreeMap<NonZeroU8, u8>>(),
        ty::<BTreeMap<Option<u8>, String>>(),
        ty::<BTreeMap<bool, [u8; 2]>>(),
        ty::<BTreeMap<Value, Value>>(),
        ty::<BTreeMap<[u8; 2], u8>>(),
        ty::<BTreeMap<OpA, u8>>(),
        ty::<[u8; 40]>(),
        ty::<[u8; 300]>(),
        ty::<[String; 33]>(),
        ty::<BTreeMap<i8, i8>>(),
        ty::<BTreeMap<Units, u8>>(),
        ty::<BTreeMap<T2m0, ()>>(),
        ty::<BTreeMap<char, BTreeMap<u8, u8>>>(),
        ty::<Box<Box<u8>>>(),
        ty::<Vec<Box<S2m0>>>(),
        ty::<Option<Box<E2m0>>>(),
        ty::<Vec<OptCS>>(),
        ty::<Vec<OptCE>>(),
        ty::<[OptCT; 2]>(),
        ty::<Option<OptCS>>(),
        ty::<BTreeMap<u8, OptCE>>(),
        ty::<Vec<SkipFirst>>(),
        ty::<Vec<RTree>>(),
        ty::<(RList, u8)>(),
        ty::<Box<REnum>>(),
        ty::<Option<std::convert::Infallible>>(),
        ty::<Vec<std::convert::Infallible>>(),
        ty::<BTreeMap<usize, u8>>(),
        ty::<BTreeMap<u16, u8>>(),
        ty::<BTreeMap<u32, u8>>(),
        ty::<BTreeMap<u64, u8>>(),
        ty::<BTreeMap<u128, u8>>(),
        ty::<BTreeMap<i8, u8>>(),
        ty::<BTreeMap<i16, u8>>(),
        ty::<BTreeMap<i32, u8>>(),
        ty::<BTreeMap<i64, u8>>(),
        ty::<BTreeMap<i128, u8>>(),
        ty::<BTreeMap<bool, u8>>(),
        ty::<BTreeMap<char, u8>>(),
        ty::<BTreeMap<NonZeroUsize, u8>>(),
        ty::<BTreeMap<NonZeroU16, u8>>(),
        ty::<BTreeMap<NonZeroU32, u8>>(),
        ty::<BTreeMap<NonZeroU64, u8>>(),
        ty::<BTreeMap<NonZeroU128, u8>>(),
        ty::<BTreeMap<NonZeroI8, u8>>(),
        ty::<BTreeMap<NonZeroI16, u8>>(),
        ty::<BTreeMap<NonZeroI32, u8>>(),
        ty::<BTreeMap<NonZeroI64, u8>>(),
        ty::<BTreeMap<NonZeroI128, u8>>(),
        ty::<BTreeMap<Duration, u8>>(),
        ty::<BTreeMap<usize, S2m0>>(),
        ty::<BTreeMap<usize, Vec<u8>>>(),
        ty::<BTreeMap<Value, S2m0>>(),
        ty::<Vec<BTreeMap<usize, String>>>(),
        ty::<Vec<usize>>(),
        ty::<Option<usize>>(),
        ty::<[usize; 2]>(),
        ty::<Vec<u16>>(),
        ty::<Option<u16>>(),
        ty::<[u16; 2]>(),
        ty::<Vec<u32>>(),
        ty::<Option<u32>>(),
        ty::<[u32; 2]>(),
        ty::<Vec<u64>>(),
        ty::<Option<u64>>(),
        ty::<[u64; 2]>(),
        ty::<Vec<u128>>(),
        ty::<Option<u128>>(),
        ty::<[u128; 2]>(),
        ty::<Vec<i8>>(),
        ty::<Option<i8>>(),
        ty::<[i8; 2]>(),
        ty::<Vec<i16>>(),
        ty::<Option<i16>>(),
        ty::<[i16; 2]>(),
        ty::<Vec<i32>>(),
        ty::<Option<i32>>(),
        ty::<[i32; 2]>(),
        ty::<Vec<i64>>(),
        ty::<Option<i64>>(),
        ty::<[i64; 2]>(),
        ty::<Vec<i128>>(),
        ty::<Option<i128>>(),
        ty::<[i128; 2]>(),
        ty::<Vec<bool>>(),
        ty::<Option<bool>>(),
        ty::<[bool; 2]>(),
        ty::<Vec<char>>(),
        ty::<Option<char>>(),
        ty::<[char; 2]>(),
        ty::<Vec<f64>>(),
        ty::<Option<f64>>(),
        ty::<[f64; 2]>(),
        ty::<(usize, u128)>(),
        ty::<Result<usize, u128>>(),
        ty::<(u8, i8)>(),
        ty::<Result<u8, i8>>(),
        ty::<(u16, i16)>(),
        ty::<Result<u16, i16>>(),
        ty::<(u32, i32)>(),
        ty::<Result<u32, i32>>(),
        ty::<(u64, i64)>(),
        ty::<Result<u64, i64>>(),
        ty::<(u128, i128)>(),
        ty::<Result<u128, i128>>(),
        ty::<(i8, bool)>(),
        ty::<Result<i8, bool>>(),
        ty::<(i16, char)>(),
        ty::<Result<i16, char>>(),
        ty::<(i32, f32)>(),
        ty::<Result<i32, f32>>(),
        ty::<(i64, f64)>(),
        ty::<Result<i64, f64>>(),
        ty::<(i128, String)>(),
        ty::<Result<i128, String>>(),
        ty::<(bool, usize)>(),
        ty::<Result<bool, usize>>(),
        ty::<(char, u8)>(),
        ty::<Result<char, u8>>(),
        ty::<(f32, u16)>(),
        ty::<Result<f32, u16>>(),
        ty::<(f64, u32)>(),
        ty::<Result<f64, u32>>(),
        ty::<(String, u64)>(),
        ty::<Result<String, u64>>(),
        ty::<Kd0>(),
        ty::<KdT0>(),
        ty::<KdE0>(),
        ty::<(Option<u8>, (u8,), ())>(),
        ty::<Kd1>(),
        ty::<KdT1>(),
        ty::<KdE1>(),
        ty::<(Vec<u8>, S1m0, u8)>(),
        ty::<Kd2>(),
        ty::<KdT2>(),
        ty::<KdE2>(),
        ty::<([u8; 2], T1m0, Unit)>(),
        ty::<Kd3>(),
        ty::<KdT3>(),
        ty::<KdE3>(),
        ty::<(BTreeMap<u8, u8>, Units, Option<u8>)>(),
        ty::<Kd4>(),
        ty::<KdT4>(),
        ty::<KdE4>(),
        ty::<((u8,), OpA, Vec<u8>)>(),
        ty::<Kd5>(),
        ty::<KdT5>(),
        ty::<KdE5>(),
        ty::<(S1m0, Value, [u8; 2])>(),
        ty::<Kd6>(),
        ty::<KdT6>(),
        ty::<KdE6>(),
        ty::<(T1m0, NonZeroI16, BTreeMap<u8, u8>)>(),
        ty::<Kd7>(),
        ty::<KdT7>(),
        ty::<KdE7>(),
        ty::<(Units, [u8; 0], (u8,))>(),
        ty::<Kd8>(),
        ty::<KdT8>(),
        ty::<KdE8>(),
        ty::<(OpA, Box<E1m0>, S1m0)>(),
        ty::<Kd9>(),
        ty::<KdT9>(),
        ty::<KdE9>(),
        ty::<(Value, (), T1m0)>(),
        ty::<Kd10>(),
        ty::<KdT10>(),
        ty::<KdE10>(),
        ty::<(NonZeroI16, u8, Units)>(),
        ty::<Kd11>(),
        ty::<KdT11>(),
        ty::<KdE11>(),
        ty::<([u8; 0], Unit, OpA)>(),
        ty::<Kd12>(),
        ty::<KdT12>(),
        ty::<KdE12>(),
        ty::<(Box<E1m0>, Option<u8>, Value)>(),
        ty::<Kd13>(),
        ty::<KdT13>(),
        ty::<KdE13>(),
        ty::<((), Vec<u8>, NonZeroI16)>(),
        ty::<Kd14>(),
        ty::<KdT14>(),
        ty::<KdE14>(),
        ty::<(u8, [u8; 2], [u8; 0])>(),
        ty::<Kd15>(),
        ty::<KdT15>(),
        ty::<KdE15>(),
        ty::<(Unit, BTreeMap<u8, u8>, Box<E1m0>)>(),
        ty::<Option<()>>(),
        ty::<Vec<()>>(),
        ty::<BTreeMap<u8, ()>>(),
        ty::<BTreeMap<(), u8>>(),
        ty::<((), u8)>(),
        ty::<[(); 2]>(),
        ty::<Box<()>>(),
        ty::<G<()>>(),
        ty::<GT<()>>(),
        ty::<GE<()>>(),
        ty::<Option<(u8,)>>(),
        ty::<Vec<(u8,)>>(),
        ty::<BTreeMap<u8, (u8,)>>(),
        ty::<BTreeMap<(u8,), u8>>(),
        ty::<((u8,), u8)>(),
        ty::<[(u8,); 2]>(),
        ty::<Box<(u8,)>>(),
        ty::<G<(u8,)>>(),
        ty::<GT<(u8,)>>(),
        ty::<GE<(u8,)>>(),
        ty::<Option<[u8; 0]>>(),
        ty::<Vec<[u8; 0]>>(),
        ty::<BTreeMap<u8, [u8; 0]>>(),
        ty::<BTreeMap<[u8; 0], u8>>(),
        ty::<([u8; 0], u8)>(),
        ty::<[[u8; 0]; 2]>(),
        ty::<Box<[u8; 0]>>(),
        ty::<G<[u8; 0]>>(),
        ty::<GT<[u8; 0]>>(),
        ty::<GE<[u8; 0]>>(),
        ty::<Option<Units>>(),
        ty::<Vec<Units>>(),
        ty::<BTreeMap<u8, Units>>(),
        ty::<(Units, u8)>(),
        ty::<[Units; 2]>(),
        ty::<Box<Units>>(),
        ty::<G<Units>>(),
        ty::<GT<Units>>(),
        ty::<GE<Units>>(),
        ty::<Df0>(),
        ty::<DfT0>(),
        ty::<DfE0>(),
        ty::<DfS0>(),
        ty::<(NonZeroU8, )>(),
        ty::<DfK0>(),
        ty::<Df1>(),
        ty::<DfT1>(),
        ty::<DfE1>(),
        ty::<DfS1>(),
        ty::<(u8, )>(),
        ty::<DfK1>(),
        ty::<Df00>(),
        ty::<DfT00>(),
        ty::<DfE00>(),
        ty::<DfS00>(),
        ty::<(NonZeroU8, NonZeroU8, )>(),
        ty::<DfK00>(),
        ty::<Df01>(),
        ty::<DfT01>(),
        ty::<DfE01>(),
        ty::<DfS01>(),
        ty::<(NonZeroU8, u8, )>(),
        ty::<DfK01>(),
        ty::<Df10>(),
        ty::<DfT10>(),
        ty::<DfE10>(),
        ty::<DfS10>(),
        ty::<(u8, NonZeroU8, )>(),
        ty::<DfK10>(),
        ty::<Df11>(),
        ty::<DfT11>(),
        ty::<DfE11>(),
        ty::<DfS11>(),
        ty::<(u8, u8, )>(),
        ty::<DfK11>(),
        ty::<Df000>(),
        ty::<DfT000>(),
        ty::<DfE000>(),
        ty::<DfS000>(),
        ty::<(NonZeroU8, NonZeroU8, NonZeroU8, )>(),
        ty::<Df001>(),
        ty::<DfT001>(),
        ty::<DfE001>(),
        ty::<DfS001>(),
        ty::<(NonZeroU8, NonZeroU8, u8, )>(),
        ty::<Df010>(),
        ty::<DfT010>(),
        ty::<DfE010>(),
        ty::<DfS010>(),
        ty::<(NonZeroU8, u8, NonZeroU8, )>(),
        ty::<Df011>(),
        ty::<DfT011>(),
        ty::<DfE011>(),
        ty::<DfS011>(),
        ty::<(NonZeroU8, u8, u8, )>(),
        ty::<Df100>(),
        ty::<DfT100>(),
        ty::<DfE100>(),
        ty::<DfS100>(),
        ty::<(u8, NonZeroU8, NonZeroU8, )>(),
        ty::<Df101>(),
        ty::<DfT101>(),
        ty::<DfE101>(),
        ty::<DfS101>(),
        ty::<(u8, NonZeroU8, u8, )>(),
        ty::<Df110>(),
        ty::<DfT110>(),
        ty::<DfE110>(),
        ty::<DfS110>(),
        ty::<(u8, u8, NonZeroU8, )>(),
        ty::<Df111>(),
        ty::<DfT111>(),
        ty::<DfE111>(),
        ty::<DfS111>(),
        ty::<(u8, u8, u8, )>(),
        ty::<Range<NonZeroU8>>(),
        ty::<Result<NonZeroU8, NonZeroU8>>(),
        ty::<Result<NonZeroU8, u8>>(),
        ty::<Result<u8, NonZeroU8>>(),
        ty::<Result<u8, u8>>(),
        ty::<DfFirstSkipped>(),
        ty::<DfFirstSkipped2>(),
    ];
    #[cfg(feature = "glam")]
    out.push(ty::<glam::Vec2>());
    #[cfg(feature = "glam")]
    out.push(ty::<glam::Vec3>());
    #[cfg(feature = "glam")]
    out.push(ty::<glam::Mat3>());
    #[cfg(feature = "macaw")]
    out.push(ty::<macaw::ColorRgba8>());
    out
}
