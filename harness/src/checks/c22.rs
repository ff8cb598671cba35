use super::types::{each_node, Node, TNode};
use super::*;
use mirror_mirror::enum_::{VariantField, VariantFieldMut};
use mirror_mirror::key_path::{Key, KeyPath};
use mirror_mirror::type_info::Type;

pub const CHECK: Check = Check {
    id: "C22",
    run,
    bounds: "every type of the universe, up to 12 (thorough 200) values of each nested up to 3 (4) deep and their type erased forms, every part of each, lists, arrays, tuples and maps of up to 8 entries, key paths of up to 6 (8) keys, the type description of every type; on a fresh iterator all sequences of up to 4 (5) steps out of next, nth(0), nth(1) and nth(3), from both ends where there are two, then next to the end and twice beyond it; after every step the length, size hint, and (on repetitions) count, last and the rest collected",
    extra: None,
};

#[derive(Clone, Copy, Debug, PartialEq)]
enum Op {
    Next,
    Nth(usize),
    Back,
    NthBack(usize),
}

const FRONT: &[Op] = &[Op::Next, Op::Nth(0), Op::Nth(1), Op::Nth(3)];
const BOTH: &[Op] = &[Op::Next, Op::Back, Op::Nth(1), Op::NthBack(1), Op::NthBack(0), Op::Nth(2)];

/// All sequences of `depth` steps.
fn seqs(ops: &[Op], depth: usize) -> Vec<Vec<Op>> {
    let mut out = vec![vec![]];
    for _ in 0..depth {
        out = out
            .into_iter()
            .flat_map(|s| {
                ops.iter().map(move |o| {
                    let mut s = s.clone();
                    s.push(*o);
                    s
                })
            })
            .collect();
    }
    out
}

/// What is left: the items from `.0` up to `.1`.
struct Left(usize, usize);

impl Left {
    fn step(&mut self, op: Op) -> Option<usize> {
        let n = self.1 - self.0;
        match op {
            Op::Next => self.step(Op::Nth(0)),
            Op::Back => self.step(Op::NthBack(0)),
            Op::Nth(k) if k < n => {
                self.0 += k + 1;
                Some(self.0 - 1)
            }
            Op::NthBack(k) if k < n => {
                self.1 -= k + 1;
                Some(self.1)
            }
            _ => {
                self.0 = self.1;
                None
            }
        }
    }
}

fn hint(h: (usize, Option<usize>), left: &Left, what: &str, done: &[Op]) -> Result<(), String> {
    let n = left.1 - left.0;
    ensure!(
        h.0 <= n && h.1.map_or(true, |m| n <= m),
        "{what} after {done:?}: size hint {h:?} with {n} items left"
    );
    Ok(())
}

/// `$make` makes the iterator, `$len` is its `len` or `no`, `$want` the items as `$show` shows them.
macro_rules! drive {
    ($what:expr, $st:expr, $depth:expr, $want:expr, $make:expr, $show:expr, $len:tt, $ends:tt) => {{
        let want = &$want;
        let st: &mut Stats = $st;
        let what: &str = &$what;
        let mut all = vec![vec![]];
        // no more than it takes to get to the end and beyond it
        all.extend(seqs(drive!(@ops $ends), $depth.min(want.len() + 1)));
        for seq in all {
            let finish = want.len() + 2;
            let ops: Vec<Op> = seq.iter().copied().chain(std::iter::repeat(Op::Next).take(finish)).collect();
            {
                let mut it = $make;
                let mut left = Left(0, want.len());
                hint(it.size_hint(), &left, what, &[])?;
                drive!(@len $len, it, left, what, &[] as &[Op]);
                for (i, op) in ops.iter().enumerate() {
                    let got = drive!(@step $ends, it, *op).map($show);
                    let expected = left.step(*op).map(|i| want[i].clone());
                    ensure_eq!(got, expected, "{what}: step {op:?} after {:?}", &ops[..i]);
                    hint(it.size_hint(), &left, what, &ops[..=i])?;
                    drive!(@len $len, it, left, what, &ops[..=i]);
                    st.tr(1);
                }
            }
            for end in 0..4 {
                let mut it = $make;
                let mut left = Left(0, want.len());
                for op in &seq {
                    drive!(@step $ends, it, *op);
                    left.step(*op);
                }
                let rest = &want[left.0..left.1];
                match end {
                    0 => ensure_eq!(it.count(), rest.len(), "{what}: count after {seq:?}"),
                    1 => ensure_eq!(it.last().map($show), rest.last().cloned(), "{what}: last after {seq:?}"),
                    2 => ensure_eq!(it.map($show).collect::<Vec<_>>(), rest.to_vec(), "{what}: rest after {seq:?}"),
                    _ => {
                        let mut n = 0;
                        it.for_each(|_| n += 1);
                        ensure_eq!(n, rest.len(), "{what}: items passed to for_each after {seq:?}");
                    }
                }
                st.tr(1);
            }
        }
    }};
    (@ops front) => { FRONT };
    (@ops both) => { BOTH };
    (@step front, $it:expr, $op:expr) => {
        match $op {
            Op::Next => $it.next(),
            Op::Nth(k) => $it.nth(k),
            _ => unreachable!(),
        }
    };
    (@step both, $it:expr, $op:expr) => {
        match $op {
            Op::Next => $it.next(),
            Op::Nth(k) => $it.nth(k),
            Op::Back => $it.next_back(),
            Op::NthBack(k) => $it.nth_back(k),
        }
    };
    (@len no, $it:expr, $left:expr, $what:expr, $done:expr) => {};
    (@len len, $it:expr, $left:expr, $what:expr, $done:expr) => {
        ensure_eq!(ExactSizeIterator::len(&$it), $left.1 - $left.0, "{}: length after {:?}", $what, $done);
    };
}

fn id(r: &dyn Reflect) -> usize {
    addr(r)
}

fn id_mut(r: &mut dyn Reflect) -> usize {
    addr(r)
}

fn value(r: &mut dyn Reflect, m: &M, depth: usize, st: &mut Stats) -> Result<(), String> {
    let ids: Vec<usize> = match r.reflect_ref() {
        ReflectRef::Map(e) => {
            let M::Map(es) = m else { return Err(format!("map where {m:?} is expected")) };
            let mut out = vec![];
            for (k, _) in es {
                let (_, v) = e
                    .iter()
                    .find(|(o, _)| observe(*o).value_eq(k))
                    .ok_or_else(|| format!("{k:?} is missing in {m:?}"))?;
                out.push(addr(v));
            }
            out
        }
        _ => (0..m.children().len())
            .map(|i| child(r, i).map(addr).ok_or_else(|| format!("no child {i} of {m:?}")))
            .collect::<Result<_, _>>()?,
    };
    let w = |s: &str| format!("{s} of {m:?}");
    match m {
        M::Struct(f) => {
            let want: Vec<(String, usize)> = f.iter().map(|x| x.0.clone()).zip(ids).collect();
            {
                let s = r.as_struct().unwrap();
                drive!(w("fields"), st, depth, want, s.fields(), |(n, v)| (n.to_owned(), id(v)), len, front);
            }
            let s = r.as_struct_mut().unwrap();
            drive!(w("fields_mut"), st, depth, want, s.fields_mut(), |(n, v)| (n.to_owned(), id_mut(v)), no, front);
        }
        M::Enum(_, _, f) => {
            let want: Vec<(Option<String>, usize)> = f.iter().map(|x| x.0.clone()).zip(ids).collect();
            {
                let s = r.as_enum().unwrap();
                drive!(
                    w("fields"),
                    st,
                    depth,
                    want,
                    s.fields(),
                    |v| match v {
                        VariantField::Struct(n, v) => (Some(n.to_owned()), id(v)),
                        VariantField::Tuple(v) => (None, id(v)),
                    },
                    no,
                    front
                );
            }
            let s = r.as_enum_mut().unwrap();
            drive!(
                w("fields_mut"),
                st,
                depth,
                want,
                s.fields_mut(),
                |v| match v {
                    VariantFieldMut::Struct(n, v) => (Some(n.to_owned()), id_mut(v)),
                    VariantFieldMut::Tuple(v) => (None, id_mut(v)),
                },
                no,
                front
            );
        }
        M::TupleStruct(_) => {
            {
                let s = r.as_tuple_struct().unwrap();
                drive!(w("fields"), st, depth, ids, s.fields(), id, len, front);
            }
            let s = r.as_tuple_struct_mut().unwrap();
            drive!(w("fields_mut"), st, depth, ids, s.fields_mut(), id_mut, no, front);
        }
        M::Tuple(_) => {
            {
                let s = r.as_tuple().unwrap();
                drive!(w("fields"), st, depth, ids, s.fields(), id, len, front);
            }
            let s = r.as_tuple_mut().unwrap();
            drive!(w("fields_mut"), st, depth, ids, s.fields_mut(), id_mut, no, front);
        }
        M::List(_) => {
            {
                let s = r.as_list().unwrap();
                drive!(w("iter"), st, depth, ids, s.iter(), id, len, front);
            }
            let s = r.as_list_mut().unwrap();
            drive!(w("iter_mut"), st, depth, ids, s.iter_mut(), id_mut, no, front);
        }
        M::Array(_) => {
            {
                let s = r.as_array().unwrap();
                drive!(w("iter"), st, depth, ids, s.iter(), id, len, front);
            }
            let s = r.as_array_mut().unwrap();
            drive!(w("iter_mut"), st, depth, ids, s.iter_mut(), id_mut, no, front);
        }
        M::Map(e) => {
            let want: Vec<(M, usize)> = e.iter().map(|x| x.0.clone()).zip(ids).collect();
            {
                let s = r.as_map().unwrap();
                drive!(w("iter"), st, depth, want, s.iter(), |(k, v)| (observe(k), id(v)), no, front);
            }
            let s = r.as_map_mut().unwrap();
            drive!(w("iter_mut"), st, depth, want, s.iter_mut(), |(k, v)| (observe(k), id_mut(v)), no, front);
        }
        M::S(_) | M::Via(..) | M::Opaque(_) => {}
    }
    st.state(m);
    Ok(())
}

/// All parts.
fn all(r: &mut dyn Reflect, m: &M, depth: usize, st: &mut Stats) -> Result<(), String> {
    value(r, m, depth, st)?;
    for (i, c) in m.children().into_iter().enumerate() {
        all(child_mut(r, i).ok_or_else(|| format!("no child {i} of {m:?}"))?, c, depth, st)?;
    }
    Ok(())
}

fn type_level(ty: Type<'_>, t: &T, depth: usize, st: &mut Stats) -> Result<(), String> {
    let w = |s: &str| format!("{s} of {}", t.type_name());
    match (ty, t) {
        (Type::Struct(s), T::Struct { fields, .. }) => {
            let want: Vec<_> = fields.iter().map(|f| (f.name.unwrap(), (f.ty)().type_name())).collect();
            drive!(w("field_types"), st, depth, want, s.field_types(), |f| (f.name(), f.get_type().type_name()), no, front);
        }
        (Type::TupleStruct(s), T::TupleStruct { fields, .. }) => {
            let want: Vec<_> = fields.iter().map(|f| (f.ty)().type_name()).collect();
            drive!(w("field_types"), st, depth, want, s.field_types(), |f| f.get_type().type_name(), no, front);
        }
        (Type::Tuple(s), T::Tuple { elems, .. }) => {
            let want: Vec<_> = elems.iter().map(|f| f().type_name()).collect();
            drive!(w("field_types"), st, depth, want, s.field_types(), |f| f.get_type().type_name(), no, front);
        }
        (Type::Enum(s), T::Enum { variants, .. }) => {
            let want: Vec<_> = variants.iter().map(|v| v.name).collect();
            drive!(w("variants"), st, depth, want, s.variants(), |v| v.name(), no, front);
            for (v, l) in variants.iter().zip(s.variants()) {
                let want: Vec<_> = v.fields.iter().map(|f| (f.name, (f.ty)().type_name())).collect();
                let what = format!("field_types of {}::{}", t.type_name(), v.name);
                drive!(what, st, depth, want, l.field_types(), |f| (f.name(), f.get_type().type_name()), no, front);
                use mirror_mirror::type_info::Variant;
                match l {
                    Variant::Struct(s) => {
                        drive!(what, st, depth, want, s.field_types(), |f| (Some(f.name()), f.get_type().type_name()), no, front);
                    }
                    Variant::Tuple(s) => {
                        drive!(what, st, depth, want, s.field_types(), |f| (None, f.get_type().type_name()), no, front);
                    }
                    Variant::Unit(_) => {}
                }
            }
        }
        _ => {}
    }
    Ok(())
}

fn paths(path: &KeyPath, keys: &[Key], depth: usize, st: &mut Stats) -> Result<(), String> {
    let w = |s: &str| format!("{s} of {keys:?}");
    let want: Vec<Key> = keys.to_vec();
    drive!(w("iter"), st, depth, want, path.iter(), |k: &Key| k.clone(), len, both);
    drive!(w("into_iter"), st, depth, want, path.clone().into_iter(), |k| k, len, both);
    drive!(w("into_iter of a reference"), st, depth, want, IntoIterator::into_iter(path), |k: &Key| k.clone(), len, both);
    let crumbs: Vec<Vec<Key>> = (1..=keys.len()).map(|n| keys[..n].to_vec()).collect();
    drive!(w("breadcrumbs"), st, depth, crumbs, path.breadcrumbs(), |k: &[Key]| k.to_vec(), no, front);
    // from the back
    ensure_eq!(path.iter().rev().cloned().collect::<Vec<_>>(), keys.iter().rev().cloned().collect::<Vec<_>>(), "{}", w("reversed"));
    st.state(&format!("{keys:?}"));
    Ok(())
}

fn run(ctx: &mut Ctx) {
    let (n, d) = (ctx.pick(12, 200), ctx.pick(3, 4));
    let depth = ctx.pick(4, 5);
    for t in universe() {
        ctx.unit(t.name, |ctx| {
            for x in (t.vals)(n, d) {
                let m = x.m();
                ctx.case(
                    || format!("{m:?}"),
                    |st| {
                        let mut y = x.dup();
                        all(y.rm(), &m, depth, st)?;
                        exactly(&y.m(), &m, "after iterating")?;
                        if !m.has_opaque() {
                            let mut v = x.r().to_value();
                            let vm = v.m();
                            all(&mut v, &vm, depth, st)?;
                        }
                        Ok(())
                    },
                );
            }
            ctx.case(
                || "the type".to_owned(),
                |st| {
                    let desc = (t.desc)();
                    each_node(desc.get_type(), &(t.t)(), 2, &mut |node, m| match (node, m) {
                        (Node::Type(ty), TNode::T(t)) => type_level(ty, &t, depth, st),
                        _ => Ok(()),
                    })
                },
            );
        });
    }
    ctx.unit("long collections", |ctx| {
        for n in 0..=8usize {
            ctx.case(
                || format!("{n} entries"),
                |st| {
                    let l: Vec<M> = (0..n).map(|i| M::S(S::U8(i as u8))).collect();
                    let mut v: Vec<u8> = (0..n as u8).collect();
                    value(&mut v, &M::List(l.clone()), depth, st)?;
                    let mut e = std::collections::BTreeMap::<u8, u8>::new();
                    for i in 0..n as u8 {
                        e.insert(i, i);
                    }
                    value(&mut e, &M::Map(l.iter().map(|i| (i.clone(), i.clone())).collect()), depth, st)?;
                    for m in [
                        M::List(l.clone()),
                        M::Tuple(l.clone()),
                        M::TupleStruct(l.clone()),
                        M::Map(l.iter().map(|i| (i.clone(), i.clone())).collect()),
                        M::Struct(l.iter().enumerate().map(|(n, i)| (format!("{}{n}", 9 - n), i.clone())).collect()),
                        M::Enum("A".into(), if n == 0 { VK::Unit } else { VK::Tuple }, l.iter().map(|i| (None, i.clone())).collect()),
                        M::Enum(
                            "A".into(),
                            if n == 0 { VK::Unit } else { VK::Struct },
                            l.iter().enumerate().map(|(n, i)| (Some(format!("{}{n}", 9 - n)), i.clone())).collect(),
                        ),
                    ] {
                        value(&mut m.to_value(), &m, depth, st)?;
                    }
                    match n {
                        5 => value(&mut [0u8, 1, 2, 3, 4], &M::Array(l), depth, st),
                        8 => value(&mut [0u8, 1, 2, 3, 4, 5, 6, 7], &M::Array(l), depth, st),
                        _ => Ok(()),
                    }
                },
            );
        }
    });
    ctx.unit("key paths", |ctx| {
        let alphabet = [Key::named_field("a"), Key::numbered_field(1), Key::get(3), Key::variant("A")];
        let max = ctx.pick(6, 8);
        for len in 0..=max {
            // all different neighbours, so that every position is told from the ones next to it
            for shift in 0..alphabet.len() {
                let keys: Vec<Key> = (0..len).map(|i| alphabet[(i + shift) % alphabet.len()].clone()).collect();
                let path: KeyPath = keys.iter().cloned().collect();
                ctx.case(|| format!("{keys:?}"), |st| paths(&path, &keys, depth, st));
            }
        }
    });
}
