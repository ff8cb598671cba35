use super::*;
use crate::types_gen::*;
use mirror_mirror::enum_::EnumValue;
use mirror_mirror::struct_::StructValue;
use mirror_mirror::tuple::TupleValue;
use mirror_mirror::tuple_struct::TupleStructValue;
use mirror_mirror::{Array, Enum, GetField, GetFieldMut, List, Map, Struct, Tuple, TupleStruct};
use std::any::TypeId;
use std::collections::BTreeMap;
use std::num::NonZeroU8;
use std::time::Duration;

pub const CHECK: Check = Check {
    id: "C20",
    run,
    bounds: "every type of the universe, up to 8 (thorough 60) values of each nested up to 3 (4) deep and their type erased forms, every part of each; keys of 12 types, present and absent; the field asked for as each of 52 types, shared, shared from a mutable reference and mutable, with a write through each that is found",
    extra: None,
};

#[derive(Clone, Debug)]
enum Ky {
    Str(String),
    Usize(usize),
    String(String),
    U8(u8),
    I8(i8),
    I32(i32),
    U64(u64),
    Bool(bool),
    Char(char),
    Nz(NonZeroU8),
    Pair((u8, String)),
    Struct(S2m0),
    List(Vec<u8>),
    Value(Value),
}

/// Calls `$f` with the key, for keys that are reflected values.
macro_rules! reflected {
    ($key:expr, |$k:ident| $e:expr) => {
        match $key.clone() {
            Ky::Str(_) => unreachable!(),
            Ky::Usize($k) => $e,
            Ky::String($k) => $e,
            Ky::U8($k) => $e,
            Ky::I8($k) => $e,
            Ky::I32($k) => $e,
            Ky::U64($k) => $e,
            Ky::Bool($k) => $e,
            Ky::Char($k) => $e,
            Ky::Nz($k) => $e,
            Ky::Pair($k) => $e,
            Ky::Struct($k) => $e,
            Ky::List($k) => $e,
            Ky::Value($k) => $e,
        }
    };
}

impl Ky {
    fn m(&self) -> M {
        match self {
            Ky::Str(s) => M::S(S::Str(s.clone())),
            _ => reflected!(self, |k| k.m()),
        }
    }
}

fn up<T: Reflect>(t: &T) -> &dyn Reflect {
    t
}
fn up_mut<T: Reflect>(t: &mut T) -> &mut dyn Reflect {
    t
}

/// Outer `None`: there is no such getter.
type Got<X> = Option<Option<X>>;

fn get<'a, T: Reflect>(r: &'a dyn Reflect, key: &Ky) -> Got<&'a dyn Reflect> {
    Some(match (r.reflect_ref(), key) {
        (ReflectRef::Struct(v), Ky::Str(k)) => <&dyn Struct as GetField<_, _>>::get_field::<T>(v, k.as_str()).map(up),
        (ReflectRef::Enum(v), Ky::Str(k)) => <&dyn Enum as GetField<_, _>>::get_field::<T>(v, k.as_str()).map(up),
        (ReflectRef::Map(v), Ky::Str(k)) => <&dyn Map as GetField<_, _>>::get_field::<T>(v, k.as_str()).map(up),
        (ReflectRef::TupleStruct(v), Ky::Usize(k)) => <&dyn TupleStruct as GetField<_, _>>::get_field::<T>(v, *k).map(up),
        (ReflectRef::Tuple(v), Ky::Usize(k)) => <&dyn Tuple as GetField<_, _>>::get_field::<T>(v, *k).map(up),
        (ReflectRef::Enum(v), Ky::Usize(k)) => <&dyn Enum as GetField<_, _>>::get_field::<T>(v, *k).map(up),
        (ReflectRef::Array(v), Ky::Usize(k)) => <&dyn Array as GetField<_, _>>::get_field::<T>(v, *k).map(up),
        (ReflectRef::List(v), Ky::Usize(k)) => <&dyn List as GetField<_, _>>::get_field::<T>(v, *k).map(up),
        (ReflectRef::Map(v), _) => reflected!(key, |k| <&dyn Map as GetField<_, _>>::get_field::<T>(v, k).map(up)),
        _ => return None,
    })
}

fn get_shared_mut<'a, T: Reflect>(r: &'a mut dyn Reflect, key: &Ky) -> Got<&'a dyn Reflect> {
    Some(match (r.reflect_mut(), key) {
        (ReflectMut::Struct(v), Ky::Str(k)) => <&mut dyn Struct as GetField<_, _>>::get_field::<T>(v, k.as_str()).map(up),
        (ReflectMut::Enum(v), Ky::Str(k)) => <&mut dyn Enum as GetField<_, _>>::get_field::<T>(v, k.as_str()).map(up),
        (ReflectMut::Map(v), Ky::Str(k)) => <&mut dyn Map as GetField<_, _>>::get_field::<T>(v, k.as_str()).map(up),
        (ReflectMut::TupleStruct(v), Ky::Usize(k)) => <&mut dyn TupleStruct as GetField<_, _>>::get_field::<T>(v, *k).map(up),
        (ReflectMut::Tuple(v), Ky::Usize(k)) => <&mut dyn Tuple as GetField<_, _>>::get_field::<T>(v, *k).map(up),
        (ReflectMut::Enum(v), Ky::Usize(k)) => <&mut dyn Enum as GetField<_, _>>::get_field::<T>(v, *k).map(up),
        (ReflectMut::Array(v), Ky::Usize(k)) => <&mut dyn Array as GetField<_, _>>::get_field::<T>(v, *k).map(up),
        (ReflectMut::List(v), Ky::Usize(k)) => <&mut dyn List as GetField<_, _>>::get_field::<T>(v, *k).map(up),
        (ReflectMut::Map(v), _) => reflected!(key, |k| <&mut dyn Map as GetField<_, _>>::get_field::<T>(v, k).map(up)),
        _ => return None,
    })
}

fn get_mut<'a, T: Reflect>(r: &'a mut dyn Reflect, key: &Ky) -> Got<&'a mut dyn Reflect> {
    Some(match (r.reflect_mut(), key) {
        (ReflectMut::Struct(v), Ky::Str(k)) => <&mut dyn Struct as GetFieldMut<_, _>>::get_field_mut::<T>(v, k.as_str()).map(up_mut),
        (ReflectMut::Enum(v), Ky::Str(k)) => <&mut dyn Enum as GetFieldMut<_, _>>::get_field_mut::<T>(v, k.as_str()).map(up_mut),
        (ReflectMut::Map(v), Ky::Str(k)) => <&mut dyn Map as GetFieldMut<_, _>>::get_field_mut::<T>(v, k.as_str()).map(up_mut),
        (ReflectMut::TupleStruct(v), Ky::Usize(k)) => <&mut dyn TupleStruct as GetFieldMut<_, _>>::get_field_mut::<T>(v, *k).map(up_mut),
        (ReflectMut::Tuple(v), Ky::Usize(k)) => <&mut dyn Tuple as GetFieldMut<_, _>>::get_field_mut::<T>(v, *k).map(up_mut),
        (ReflectMut::Enum(v), Ky::Usize(k)) => <&mut dyn Enum as GetFieldMut<_, _>>::get_field_mut::<T>(v, *k).map(up_mut),
        (ReflectMut::Array(v), Ky::Usize(k)) => <&mut dyn Array as GetFieldMut<_, _>>::get_field_mut::<T>(v, *k).map(up_mut),
        (ReflectMut::List(v), Ky::Usize(k)) => <&mut dyn List as GetFieldMut<_, _>>::get_field_mut::<T>(v, *k).map(up_mut),
        (ReflectMut::Map(v), _) => reflected!(key, |k| <&mut dyn Map as GetFieldMut<_, _>>::get_field_mut::<T>(v, k).map(up_mut)),
        _ => return None,
    })
}

fn vget<'a, T: Reflect>(v: &'a Value, key: &Ky) -> Option<&'a dyn Reflect> {
    match key {
        Ky::Str(k) => <&Value as GetField<&str, _>>::get_field::<T>(v, k.as_str()).map(up),
        _ => reflected!(key, |k| <&Value as GetField<_, _>>::get_field::<T>(v, k).map(up)),
    }
}

fn vget_shared_mut<'a, T: Reflect>(v: &'a mut Value, key: &Ky) -> Option<&'a dyn Reflect> {
    match key {
        Ky::Str(k) => <&mut Value as GetField<&str, _>>::get_field::<T>(v, k.as_str()).map(up),
        _ => reflected!(key, |k| <&mut Value as GetField<_, _>>::get_field::<T>(v, k).map(up)),
    }
}

fn vget_mut<'a, T: Reflect>(v: &'a mut Value, key: &Ky) -> Option<&'a mut dyn Reflect> {
    match key {
        Ky::Str(k) => <&mut Value as GetFieldMut<&str, _>>::get_field_mut::<T>(v, k.as_str()).map(up_mut),
        _ => reflected!(key, |k| <&mut Value as GetFieldMut<_, _>>::get_field_mut::<T>(v, k).map(up_mut)),
    }
}

struct Cand {
    name: &'static str,
    id: TypeId,
    get: for<'a> fn(&'a dyn Reflect, &Ky) -> Got<&'a dyn Reflect>,
    get_shared_mut: for<'a> fn(&'a mut dyn Reflect, &Ky) -> Got<&'a dyn Reflect>,
    get_mut: for<'a> fn(&'a mut dyn Reflect, &Ky) -> Got<&'a mut dyn Reflect>,
    vget: for<'a> fn(&'a Value, &Ky) -> Option<&'a dyn Reflect>,
    vget_shared_mut: for<'a> fn(&'a mut Value, &Ky) -> Option<&'a dyn Reflect>,
    vget_mut: for<'a> fn(&'a mut Value, &Ky) -> Option<&'a mut dyn Reflect>,
}

fn cand<T: Reflect>() -> Cand {
    Cand {
        name: std::any::type_name::<T>(),
        id: TypeId::of::<T>(),
        get: get::<T>,
        get_shared_mut: get_shared_mut::<T>,
        get_mut: get_mut::<T>,
        vget: vget::<T>,
        vget_shared_mut: vget_shared_mut::<T>,
        vget_mut: vget_mut::<T>,
    }
}

macro_rules! cands {
    ($($t:ty),* $(,)?) => { vec![$(cand::<$t>()),*] };
}

fn cands() -> Vec<Cand> {
    cands![
        usize, u8, u16, u32, u64, u128, i8, i16, i32, i64, i128, bool, char, f32, f64, String,
        NonZeroU8, Duration, Value, StructValue, TupleStructValue, TupleValue, EnumValue,
        Vec<Value>, BTreeMap<Value, Value>,
        Option<u8>, Option<String>, Option<i32>, Vec<u8>, Vec<i32>, Vec<String>, [u8; 2], [u8; 0], [u8; 3],
        (), (u8, String), (u8,), BTreeMap<u8, String>, BTreeMap<u8, u8>,
        Box<u8>, Box<String>, Box<S2m0>,
        S2m0, T2m0, E2m0, S3m2, E3m2, Unit, OpA, OpB, G<u8>, Result<u8, String>,
    ]
}

fn keys(m: &M) -> Vec<Ky> {
    let mut names: Vec<String> = ["a", "b", "c", "x", "", "0", "1", "A", "Some"].map(String::from).to_vec();
    let n = m.children().len();
    match m {
        M::Struct(f) => names.extend(f.iter().map(|(n, _)| n.clone())),
        M::Enum(n, _, f) => {
            names.push(n.clone());
            names.extend(f.iter().filter_map(|(n, _)| n.clone()));
        }
        M::Map(e) => names.extend(e.iter().filter_map(|(k, _)| match k {
            M::S(S::Str(s)) => Some(s.clone()),
            _ => None,
        })),
        _ => {}
    }
    names.sort();
    names.dedup();
    let mut out = vec![];
    for n in names {
        out.push(Ky::Str(n.clone()));
        out.push(Ky::String(n));
    }
    out.extend((0..n).chain(past(n)).map(Ky::Usize));
    out.extend([Ky::U8(0), Ky::U8(1), Ky::I8(0), Ky::I32(0), Ky::I32(1), Ky::U64(0), Ky::Bool(true), Ky::Char('a')]);
    out.extend([
        Ky::Nz(NonZeroU8::new(1).unwrap()),
        Ky::Pair((0, "a".into())),
        Ky::Struct(S2m0 { a: 0, b: "a".into() }),
        Ky::List(vec![]),
        Ky::Value(Value::u8(0)),
        Ky::Value(Value::String("a".into())),
    ]);
    if let M::Map(e) = m {
        for (k, _) in e {
            out.push(Ky::Value(k.to_value()));
            match k {
                M::S(S::U8(v)) => out.push(Ky::U8(*v)),
                M::S(S::I8(v)) => out.push(Ky::I8(*v)),
                M::S(S::I32(v)) => out.push(Ky::I32(*v)),
                M::S(S::Bool(v)) => out.push(Ky::Bool(*v)),
                M::S(S::Char(v)) => out.push(Ky::Char(*v)),
                M::S(S::Usize(v)) => out.push(Ky::Usize(*v)),
                M::Via(_, S::U8(v), _) => out.push(Ky::Nz(NonZeroU8::new(*v).unwrap())),
                _ => {}
            }
            if let Some(p) = <(u8, String)>::from_reflect(&k.to_value()) {
                out.push(Ky::Pair(p));
            }
            if let Some(p) = S2m0::from_reflect(&k.to_value()) {
                out.push(Ky::Struct(p));
            }
            if let Some(p) = <Vec<u8>>::from_reflect(&k.to_value()) {
                out.push(Ky::List(p));
            }
        }
    }
    out
}

/// The child a key is for. `Err`: unspecified.
fn child_of(t: &T, m: &M, key: &Ky) -> Result<Option<usize>, ()> {
    // a type erased key is the key in it
    let key = &match key {
        Ky::Value(v) => match v.m() {
            M::S(S::Str(s)) => Ky::String(s),
            M::S(S::Usize(n)) => Ky::Usize(n),
            _ => key.clone(),
        },
        _ => key.clone(),
    };
    Ok(match (m, key) {
        (M::Struct(f), Ky::Str(k) | Ky::String(k)) => f.iter().position(|(n, _)| n == k),
        (M::Enum(_, _, f), Ky::Str(k)) => f.iter().position(|(n, _)| n.as_ref() == Some(k)),
        (M::Enum(_, _, f), Ky::String(k)) => match f.iter().any(|(n, _)| n.as_ref() == Some(k)) {
            true => return Err(()),
            false => None,
        },
        (M::Enum(..) | M::TupleStruct(_) | M::Tuple(_) | M::List(_) | M::Array(_), Ky::Usize(k)) => {
            (*k < m.children().len()).then_some(*k)
        }
        (M::Map(e), _) => {
            let kt = match t {
                T::Map { key, .. } => key(),
                _ => T::Dyn(DynKind::Value),
            };
            match conv(&kt, &key.m()) {
                R::Yes(k) => e.iter().position(|(o, _)| o.value_eq(&k)),
                R::No => None,
                R::Unspec => return Err(()),
            }
        }
        _ => None,
    })
}

fn found<'a>(got: Option<&'a dyn Reflect>, want: Option<(&M, TypeId, usize, bool)>, what: impl Fn() -> String) -> Result<(), String> {
    match (got, want) {
        (None, None) => Ok(()),
        (Some(v), Some((m, id, a, size0))) => {
            exactly(&observe(v), m, &what())?;
            ensure!(v.as_any().type_id() == id, "{}: another type", what());
            ensure!(size0 || addr(v) == a, "{}: not the field itself", what());
            Ok(())
        }
        (None, Some(..)) => Err(format!("{}: absent", what())),
        (Some(v), None) => Err(format!("{}: there is {:?}", what(), observe(v))),
    }
}

fn walk<'a>(mut r: &'a dyn Reflect, path: &[usize]) -> &'a dyn Reflect {
    for i in path {
        r = child(r, *i).unwrap();
    }
    r
}

fn walk_mut<'a>(mut r: &'a mut dyn Reflect, path: &[usize]) -> &'a mut dyn Reflect {
    for i in path {
        r = child_mut(r, *i).unwrap();
    }
    r
}

fn part(x: &dyn Obj, t: &T, path: &[usize], cs: &[Cand], st: &mut Stats) -> Result<(), String> {
    let whole = x.m();
    let m = whole.get(path).clone();
    let mut pt = t.clone();
    let mut at = &whole;
    for i in path {
        pt = pt.child_type(at, *i);
        at = at.children()[*i];
    }
    let r = walk(x.r(), path);
    let mut x2 = x.dup();
    for key in keys(&m) {
        let Ok(ix) = child_of(&pt, &m, &key) else { continue };
        let info = ix.map(|i| {
            let c = child(r, i).unwrap();
            (m.children()[i].clone(), c.as_any().type_id(), addr(c), std::mem::size_of_val(c.as_any()) == 0)
        });
        for c in cs {
            let want = info.as_ref().filter(|w| w.1 == c.id);
            let what = || format!("{key:?} of {m:?} as {}", c.name);
            if let Some(got) = (c.get)(r, &key) {
                found(got, want.map(|w| (&w.0, w.1, w.2, w.3)), what)?;
                st.tr(1);
            }
            if let Some(got) = (c.get_shared_mut)(walk_mut(x2.rm(), path), &key) {
                let got = got.map(addr);
                st.tr(1);
                let want = want.map(|w| (ix.unwrap(), w.3));
                let there = want.map(|w| (addr(child(walk(x2.r(), path), w.0).unwrap()), w.1));
                ensure!(
                    got.is_some() == there.is_some() && there.map_or(true, |t| t.1 || Some(t.0) == got),
                    "{} from a mutable reference: got {got:?}, expected {there:?}",
                    what()
                );
            }
            match (c.get_mut)(walk_mut(x2.rm(), path), &key) {
                None => {}
                Some(got) => {
                    let got = got.map(|g| addr(g));
                    st.tr(1);
                    let want = want.map(|w| (ix.unwrap(), w.3));
                    let there = want.map(|w| (addr(child(walk(x2.r(), path), w.0).unwrap()), w.1));
                    ensure!(
                        got.is_some() == there.is_some() && there.map_or(true, |t| t.1 || Some(t.0) == got),
                        "{} mutably: got {got:?}, expected {there:?}",
                        what()
                    );
                    if let Some(i) = ix.filter(|_| got.is_some()) {
                        let mut y = x.dup();
                        let field = (c.get_mut)(walk_mut(y.rm(), path), &key).unwrap().unwrap();
                        if let Some(new) = poke(field, m.children()[i]) {
                            let mut expected = whole.clone();
                            *expected.get_mut(path).child_mut(i) = new;
                            same(&y.m(), &expected, &format!("after changing {}", what()))?;
                            ensure_eq!(y.hidden(), x.hidden(), "skipped fields after changing {}", what());
                            st.state(&expected);
                            st.tr(1);
                        }
                    }
                }
            }
        }
    }
    Ok(())
}

fn value(m: &M, cs: &[Cand], st: &mut Stats) -> Result<(), String> {
    let v = m.to_value();
    let m = v.m();
    let mut v2 = v.clone();
    for key in keys(&m) {
        let Ok(ix) = child_of(&T::Dyn(DynKind::Value), &m, &key) else { continue };
        let info = ix.map(|i| {
            let c = child(&v, i).unwrap();
            (m.children()[i].clone(), c.as_any().type_id(), addr(c), std::mem::size_of_val(c.as_any()) == 0)
        });
        for c in cs {
            let want = info.as_ref().filter(|w| w.1 == c.id);
            let what = || format!("{key:?} of type erased {m:?} as {}", c.name);
            found((c.vget)(&v, &key), want.map(|w| (&w.0, w.1, w.2, w.3)), what)?;
            let got = (c.vget_shared_mut)(&mut v2, &key).map(addr);
            let got_mut = (c.vget_mut)(&mut v2, &key).map(|r| addr(r));
            let there = want.map(|w| (addr(child(&v2, ix.unwrap()).unwrap()), w.3));
            for (got, how) in [(got, "from a mutable reference"), (got_mut, "mutably")] {
                ensure!(
                    got.is_some() == there.is_some() && there.map_or(true, |t| t.1 || Some(t.0) == got),
                    "{} {how}: got {got:?}, expected {there:?}",
                    what()
                );
            }
            st.tr(3);
            if want.is_some() {
                let mut y = v.clone();
                if let Some(new) = poke((c.vget_mut)(&mut y, &key).unwrap(), m.children()[ix.unwrap()]) {
                    let mut expected = m.clone();
                    *expected.child_mut(ix.unwrap()) = new;
                    same(&y.m(), &expected, &format!("after changing {}", what()))?;
                    st.state(&expected);
                    st.tr(1);
                }
            }
        }
    }
    Ok(())
}

fn run(ctx: &mut Ctx) {
    let (n, d) = (ctx.pick(8, 60), ctx.pick(3, 4));
    for t in universe() {
        ctx.unit(t.name, |ctx| {
            let cs = cands();
            let ty = (t.t)();
            for x in (t.vals)(n, d) {
                let m = x.m();
                ctx.case(
                    || format!("{m:?}"),
                    |st| {
                        for p in parts(&m) {
                            part(&*x, &ty, &p, &cs, st)?;
                            st.state(m.get(&p));
                        }
                        if m.has_opaque() {
                            return Ok(());
                        }
                        let e = m.erased();
                        for p in parts(&e) {
                            value(e.get(&p), &cs, st)?;
                        }
                        Ok(())
                    },
                );
            }
        });
    }
    ctx.unit("type erased values", |ctx| {
        let cs = cands();
        for v in c09::corpus(matches!(ctx.tier, Tier::Thorough)) {
            ctx.case(|| format!("{v:?}"), |st| value(&v, &cs, st));
        }
    });
}
