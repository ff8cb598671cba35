use crate::model::*;
use crate::observe::*;
use crate::run::{guarded, hash64, Check, Ctx, Extra, Stats, Tier};
use crate::universe::*;
use mirror_mirror::{
    reflect_eq, DescribeType, FromReflect, Reflect, ReflectMut, ReflectOwned, ReflectRef, ScalarMut,
    ScalarOwned, ScalarRef, TypeDescriptor, Value,
};

macro_rules! ensure {
    ($cond:expr, $($arg:tt)*) => {
        if !$cond {
            return Err(format!($($arg)*));
        }
    };
}

macro_rules! ensure_eq {
    ($a:expr, $b:expr, $($arg:tt)*) => {{
        let (a, b) = (&$a, &$b);
        if *a != *b {
            return Err(format!("{}: got {:?}, expected {:?}", format!($($arg)*), a, b));
        }
    }};
}

mod c01;
mod c02;
mod c03;
mod c04;
mod c05;
mod c06;
mod c07;
mod c08;
pub mod c09;
mod skipped;
pub mod types;
#[cfg(all(feature = "serde", feature = "speedy"))]
mod c10;
mod c11;
mod c12;
mod c13;
mod c14;
mod c16;
mod c17;
mod c19;
mod c20;
mod c21;
mod c22;
mod c24;
mod c18;

pub fn all() -> Vec<Check> {
    let mut out = vec![c01::CHECK, c02::CHECK, c03::CHECK, c04::CHECK, c05::CHECK, c06::CHECK, c07::CHECK, c08::CHECK, c09::CHECK, c11::CHECK, c12::CHECK, c13::CHECK, c14::CHECK, c16::CHECK, c17::CHECK, c18::CHECK, c19::CHECK, c20::CHECK, c21::CHECK, c22::CHECK, c24::CHECK];
    #[cfg(all(feature = "serde", feature = "speedy"))]
    out.push(c10::CHECK);
    out
}

pub fn find(id: &str) -> Option<Check> {
    all().into_iter().find(|c| c.id == id)
}

/// Things that might bring the process down, run in one of their own.
pub fn probe(args: &[String]) {
    match args[0].as_str() {
        "default" => c13::probe(&args[1]),
        other => panic!("no such probe: {other}"),
    }
}

pub fn same(got: &M, expected: &M, what: &str) -> Result<(), String> {
    if got.same(expected) {
        Ok(())
    } else {
        Err(format!("{what}: got {got:?}, expected {expected:?}"))
    }
}

pub fn exactly(got: &M, expected: &M, what: &str) -> Result<(), String> {
    if got == expected {
        Ok(())
    } else {
        Err(format!("{what}: got {got:?}, expected {expected:?}"))
    }
}

/// The address a reference to a reflected value points to.
pub fn addr(r: &dyn Reflect) -> usize {
    r.as_any() as *const dyn std::any::Any as *const () as usize
}

/// The paths (of indices of children) to all parts of a value.
pub fn parts(m: &M) -> Vec<Vec<usize>> {
    let mut out = vec![vec![]];
    for (i, c) in m.children().into_iter().enumerate() {
        for p in parts(c) {
            let mut q = vec![i];
            q.extend(p);
            out.push(q);
        }
    }
    out
}

/// The paths to all leaves of a value.
pub fn leaves(m: &M) -> Vec<Vec<usize>> {
    parts(m)
        .into_iter()
        .filter(|p| matches!(m.get(p), M::S(_) | M::Via(..) | M::Opaque(_)))
        .collect()
}

/// What a leaf is changed to.
pub fn leaf_alt(m: &M) -> M {
    match m {
        M::S(s) => M::S(s.alt()),
        M::Via(v, s, _) => v.from_scalar(&s.alt()).unwrap(),
        M::Opaque(n) => M::Opaque(n ^ 1),
        _ => panic!("not a leaf"),
    }
}

/// Contents that differ from `m` in one place: a part missing, added, renamed, of another type or
/// kind, or in another place.
pub fn perturb(m: &M) -> Vec<M> {
    let mut out = vec![];
    for p in parts(m) {
        for new in perturb_here(m.get(&p)) {
            let mut n = m.clone();
            *n.get_mut(&p) = new;
            out.push(n);
        }
    }
    // keys of maps
    for p in parts(m) {
        if let M::Map(e) = m.get(&p) {
            for i in 0..e.len() {
                for new in perturb_here(&e[i].0) {
                    let mut n = m.clone();
                    let M::Map(e) = n.get_mut(&p) else { unreachable!() };
                    e[i].0 = new;
                    out.push(n);
                }
            }
        }
    }
    out
}

fn perturb_here(m: &M) -> Vec<M> {
    let i32_ = |n| M::S(S::I32(n));
    let mut out = vec![];
    match m {
        M::S(s) => {
            out.push(M::S(s.alt()));
            if let S::I32(_) = s {
                out.push(M::S(S::I64(5)));
                out.push(M::S(S::Str("xyz".into())));
            } else {
                out.push(i32_(5));
            }
            out.push(M::Tuple(vec![m.clone()]));
        }
        M::Via(_, s, _) => {
            out.push(M::S(s.clone()));
            out.push(M::S(s.k().zero()));
            out.push(M::S(if s.k() == K::U8 { S::U16(1) } else { S::U8(1) }));
            if s.k() == K::F32 {
                for f in [-1.0, f32::NAN, f32::INFINITY, 1e30, -0.0] {
                    out.push(M::S(S::F32(f.to_bits())));
                }
            }
        }
        M::Opaque(_) => {
            out.push(M::S(S::U8(9)));
            out.push(i32_(5));
        }
        M::Struct(f) => {
            for i in 0..f.len() {
                let mut n = f.clone();
                n.remove(i);
                out.push(M::Struct(n));
                let mut n = f.clone();
                n[i].0 += "_";
                out.push(M::Struct(n));
            }
            let mut n = f.clone();
            n.insert(0, ("zzz".into(), i32_(9)));
            out.push(M::Struct(n));
            if f.len() > 1 {
                let mut n = f.clone();
                n.reverse();
                out.push(M::Struct(n));
            }
            out.push(M::TupleStruct(f.iter().map(|(_, m)| m.clone()).collect()));
            out.push(map(f
                .iter()
                .map(|(n, m)| (M::S(S::Str(n.clone())), m.clone()))
                .collect()));
            out.push(M::Enum(
                "A".into(),
                VK::Struct,
                f.iter().map(|(n, m)| (Some(n.clone()), m.clone())).collect(),
            ));
            out.push(M::Struct(vec![]));
        }
        M::TupleStruct(f) => {
            out.extend(perturb_seq(f).into_iter().map(M::TupleStruct));
            out.push(M::Tuple(f.clone()));
            out.push(M::List(f.clone()));
        }
        M::Tuple(f) => {
            out.extend(perturb_seq(f).into_iter().map(M::Tuple));
            out.push(M::TupleStruct(f.clone()));
            out.push(M::List(f.clone()));
        }
        M::List(f) | M::Array(f) => {
            out.extend(perturb_seq(f).into_iter().map(M::List));
            out.push(M::Tuple(f.clone()));
        }
        M::Enum(n, k, f) => {
            out.push(M::Enum(format!("{n}_"), *k, f.clone()));
            for other in ["A", "B", "C", "None", "Some", "Ok", "Err"] {
                if other != n {
                    out.push(M::Enum(other.into(), *k, f.clone()));
                    out.push(M::Enum(other.into(), VK::Unit, vec![]));
                }
            }
            match k {
                VK::Unit => {
                    out.push(M::S(S::Str(n.clone())));
                }
                VK::Tuple => {
                    for g in perturb_seq(f) {
                        out.push(M::Enum(n.clone(), *k, g));
                    }
                    out.push(M::TupleStruct(f.iter().map(|(_, m)| m.clone()).collect()));
                }
                VK::Struct => {
                    for i in 0..f.len() {
                        let mut g = f.clone();
                        g.remove(i);
                        out.push(M::Enum(n.clone(), *k, g));
                        let mut g = f.clone();
                        g[i].0 = Some(format!("{}_", g[i].0.as_ref().unwrap()));
                        out.push(M::Enum(n.clone(), *k, g));
                    }
                    let mut g = f.clone();
                    g.insert(0, (Some("zzz".into()), i32_(9)));
                    out.push(M::Enum(n.clone(), *k, g));
                    if f.len() > 1 {
                        let mut g = f.clone();
                        g.reverse();
                        out.push(M::Enum(n.clone(), *k, g));
                    }
                    out.push(M::Struct(
                        f.iter()
                            .map(|(n, m)| (n.clone().unwrap(), m.clone()))
                            .collect(),
                    ));
                }
            }
        }
        M::Map(e) => {
            for i in 0..e.len() {
                let mut n = e.clone();
                n.remove(i);
                out.push(map(n));
            }
            let mut n = e.clone();
            n.push((M::S(S::Str("zzz".into())), i32_(9)));
            out.push(map(n));
            let mut n = e.clone();
            n.push((M::S(S::I32(99)), i32_(9)));
            out.push(map(n));
            out.push(M::List(
                e.iter()
                    .map(|(k, v)| M::Tuple(vec![k.clone(), v.clone()]))
                    .collect(),
            ));
        }
    }
    out
}

fn perturb_seq<X: Clone + From2>(f: &[X]) -> Vec<Vec<X>> {
    let mut out = vec![];
    for i in 0..f.len() {
        let mut n = f.to_vec();
        n.remove(i);
        out.push(n);
    }
    if let Some(last) = f.last() {
        let mut n = f.to_vec();
        n.push(last.clone());
        out.push(n);
    }
    let mut n = f.to_vec();
    n.push(X::extra());
    out.push(n);
    if f.len() > 1 {
        let mut n = f.to_vec();
        n.reverse();
        out.push(n);
        out.push(vec![]);
    }
    out
}

trait From2 {
    fn extra() -> Self;
}
impl From2 for M {
    fn extra() -> Self {
        M::S(S::I32(9))
    }
}
impl From2 for (Option<String>, M) {
    fn extra() -> Self {
        (None, M::S(S::I32(9)))
    }
}

/// Without duplicates and without contents two keys of which are the same.
pub fn valid_erased(ms: Vec<M>) -> Vec<M> {
    fn ok(m: &M) -> bool {
        if let M::Map(e) = m {
            for (i, (k, _)) in e.iter().enumerate() {
                if e[..i].iter().any(|(o, _)| o.value_eq(k)) || !ok(k) {
                    return false;
                }
            }
        }
        m.children().into_iter().all(ok)
    }
    let mut seen = std::collections::BTreeSet::new();
    ms.into_iter()
        .map(|m| m.erased())
        .filter(|m| ok(m) && seen.insert(m.canon()))
        .collect()
}

/// Every name a field, variant or so might have in the universe.
pub fn all_names() -> Vec<&'static str> {
    vec![
        "", "a", "b", "c", "d", "x", "y", "z", "h", "A", "B", "C", "0", "1", "start", "end", "x_axis", "self",
        "r#type", "type", "a_", "aa", "value", "name",
    ]
}
