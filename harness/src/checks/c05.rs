use super::*;
use mirror_mirror::key_path::{GetPath, Key, KeyPath, NamedOrNumbered};

pub const CHECK: Check = Check {
    id: "C05",
    run,
    bounds: "every type of the universe, up to 6 (thorough 60) values of each nested up to 3 deep, and long (33 and 257 parts) and deep (33 levels) ones; from every reachable part all keys of an alphabet of valid and invalid keys, to the leaves, so every path of valid keys followed by one arbitrary key, plus one valid key after a failed one; in deep values this for all prefixes of paths of up to 99 keys",
    extra: None,
};

/// What a key does at a value: the indices of children to follow, or `None` if it doesn't apply.
/// `Err` when that's not specified.
pub fn step(t: &T, m: &M, key: &Key) -> Result<Option<Option<usize>>, ()> {
    Ok(match (key, m) {
        (Key::Field(NamedOrNumbered::Named(n)), M::Struct(f)) => {
            f.iter().position(|(o, _)| o == n).map(Some)
        }
        (Key::Field(NamedOrNumbered::Named(n)), M::Enum(_, VK::Struct, f)) => {
            f.iter().position(|(o, _)| o.as_ref() == Some(n)).map(Some)
        }
        (Key::Field(NamedOrNumbered::Numbered(i)), M::TupleStruct(f) | M::Tuple(f)) => {
            (*i < f.len()).then_some(Some(*i))
        }
        (Key::Field(NamedOrNumbered::Numbered(i)), M::Enum(_, VK::Tuple, f)) => {
            (*i < f.len()).then_some(Some(*i))
        }
        (Key::Get(v), M::List(f) | M::Array(f)) => match v.m() {
            M::S(s) => s.index().filter(|i| *i < f.len()).map(Some),
            _ => None,
        },
        (Key::Get(v), M::Map(e)) => {
            let kt = match t {
                T::Map { key, .. } => key(),
                _ => T::Dyn(DynKind::Value),
            };
            match conv(&kt, &v.m()) {
                R::Yes(k) => e.iter().position(|(o, _)| o.value_eq(&k)).map(Some),
                R::No => None,
                R::Unspec => return Err(()),
            }
        }
        (Key::Variant(n), M::Enum(o, ..)) => (n == o).then_some(None),
        _ => None,
    })
}

/// Integers of every type as keys, where they fit.
#[allow(irrefutable_let_patterns)]
fn ints(n: usize) -> Vec<Value> {
    let mut out = vec![];
    macro_rules! push {
        ($($t:ident)*) => { $( if let Ok(n) = $t::try_from(n) { out.push(Value::$t(n)); } )* };
    }
    push!(usize u8 u16 u32 u64 u128 i8 i16 i32 i64 i128);
    out
}

pub fn alphabet(m: &M) -> Vec<Key> {
    let mut out = vec![];
    // valid ones
    match m {
        M::Struct(f) => out.extend(f.iter().map(|(n, _)| Key::named_field(n.clone()))),
        M::TupleStruct(f) | M::Tuple(f) => out.extend((0..f.len()).map(Key::numbered_field)),
        M::Enum(n, k, f) => {
            out.push(Key::variant(n.clone()));
            for (i, (n, _)) in f.iter().enumerate() {
                match n {
                    Some(n) => out.push(Key::named_field(n.clone())),
                    None => out.push(Key::numbered_field(i)),
                }
            }
            let _ = k;
        }
        M::List(f) | M::Array(f) => {
            // in a long list, its ends and where narrower indices end
            let some = |i: &usize| *i < 4 || *i + 2 > f.len() || [127, 128, 255, 256].contains(i);
            for i in (0..f.len()).filter(some) {
                out.extend(ints(i).into_iter().map(Key::Get));
            }
        }
        M::Map(e) => out.extend(e.iter().map(|(k, _)| Key::Get(k.to_value()))),
        M::S(_) | M::Via(..) | M::Opaque(_) => {}
    }
    // others
    let len = m.children().len();
    out.extend(["a", "b", "x", "", "0", "A"].map(Key::named_field));
    out.extend([0, 1, 2, len, len + 1, 256, 1 << 32, (1 << 32) + 1, usize::MAX].map(Key::numbered_field));
    out.extend(["A", "B", "Some", "None", "", "a"].map(Key::variant));
    if matches!(m, M::List(_) | M::Array(_) | M::Map(_)) {
        out.extend(ints(len).into_iter().map(Key::Get));
        out.extend(ints(0).into_iter().map(Key::Get));
        let p = |n: u32| 1u128 << n;
        out.extend(
            [
                Value::usize(usize::MAX),
                Value::u64(u64::MAX),
                Value::u128(u128::MAX),
                Value::u128(p(64)),
                Value::u128(p(64) + 1),
                Value::u128(p(127)),
                Value::u64(1 << 32),
                Value::u64((1 << 32) + 1),
                Value::u32(256),
                Value::u32(1 << 16),
                Value::u32((1 << 31) + 1),
                Value::u16(256),
                Value::u16(257),
                Value::u16(u16::MAX),
                Value::i8(-1),
                Value::i8(i8::MIN),
                Value::i16(-1),
                Value::i16(-256),
                Value::i16(i16::MIN),
                Value::i32(-1),
                Value::i32(i32::MIN),
                Value::i64(-1),
                Value::i64(1 << 32),
                Value::i64(i64::MIN),
                Value::i64(-(1 << 32)),
                Value::i128(-1),
                Value::i128(i128::MIN),
                Value::i128(-(1i128 << 64)),
                Value::i128(1i128 << 64),
                Value::bool(false),
                Value::bool(true),
                Value::char('\0'),
                Value::char('\u{1}'),
                Value::f32(0.0),
                Value::f32(1.0),
                Value::f64(0.0),
                Value::f64(1.0),
                Value::String("0".into()),
                Value::String("1".into()),
                Value::String(String::new()),
                Value::List(vec![]),
                Value::List(vec![Value::u8(0)]),
                Value::TupleValue(mirror_mirror::tuple::TupleValue::new().with_field(0u8)),
            ]
            .map(Key::Get),
        );
    } else {
        out.extend([Value::usize(0), Value::i32(0), Value::String("a".into())].map(Key::Get));
    }
    let mut seen = vec![];
    out.retain(|k| {
        if seen.contains(k) {
            false
        } else {
            seen.push(k.clone());
            true
        }
    });
    out
}

fn keys(path: &[Key]) -> KeyPath {
    path.iter().cloned().collect()
}

/// `expected`: indices of children leading to the part, or `None`.
fn check(
    st: &mut Stats,
    x: &dyn Obj,
    path: &[Key],
    expected: Option<&[usize]>,
) -> Result<(), String> {
    let m = x.m();
    let kp = keys(path);
    let got = x.r().at(&kp);
    st.tr(1);
    // step by step
    let mut by_step = Some(x.r());
    for k in path {
        by_step = by_step.and_then(|r| r.at(&KeyPath::from(k.clone())));
    }
    match (got, expected) {
        (None, None) => {}
        (Some(got), Some(idx)) => {
            exactly(&observe(got), m.get(idx), "part at the path")?;
            let mut there = x.r();
            for i in idx {
                there = child(there, *i).unwrap();
            }
            ensure_eq!(addr(got), addr(there), "address of the part at the path");
        }
        (Some(got), None) => return Err(format!("found {:?}, expected nothing", observe(got))),
        (None, Some(idx)) => return Err(format!("found nothing, expected {:?}", m.get(idx))),
    }
    ensure_eq!(got.map(addr), by_step.map(addr), "part reached at once and key by key");
    // mutable
    let mut y = x.dup();
    let got = y.rm().at_mut(&kp);
    st.tr(1);
    match (got, expected) {
        (None, None) => {}
        (Some(got), Some(idx)) => {
            let part = m.get(idx);
            exactly(&observe(got), part, "mutable part at the path")?;
            let new = poke(got, part);
            let mut e = m.clone();
            if let Some(new) = new {
                *e.get_mut(idx) = new;
            }
            same(&y.m(), &e, "value after writing through the path")?;
            ensure_eq!(y.hidden(), x.hidden(), "skipped fields after writing through the path");
            st.state(&e);
        }
        (Some(got), None) => return Err(format!("found mutable {:?}, expected nothing", observe(got))),
        (None, Some(idx)) => return Err(format!("found nothing mutable, expected {:?}", m.get(idx))),
    }
    // typed
    macro_rules! typed {
        ($($t:ty)*) => {
            $(
                let got: Option<M> = x.r().get_at::<$t>(&kp).map(|v| v.m());
                let expected: Option<M> = x.r().at(&kp).and_then(|r| r.as_any().downcast_ref::<$t>()).map(|v| v.m());
                ensure_eq!(got, expected, "part at the path as {}", stringify!($t));
                let mut y = x.dup();
                let got: Option<M> = y.rm().get_at_mut::<$t>(&kp).map(|v| v.m());
                ensure_eq!(got, expected, "mutable part at the path as {}", stringify!($t));
                st.tr(2);
            )*
        };
    }
    typed!(u8 i32 String Option<u8>);
    Ok(())
}

fn explore(
    ctx: &mut Ctx,
    x: &dyn Obj,
    t: &T,
    m: &M,
    path: &mut Vec<Key>,
    idx: &mut Vec<usize>,
    depth: usize,
    pure: bool,
) {
    for k in alphabet(m) {
        let Ok(s) = step(t, m, &k) else { continue };
        path.push(k.clone());
        match s {
            None => {
                ctx.case(|| format!("{:?} at {}", x.m(), keys(path)), |st| check(st, x, path, None));
                // nothing comes back after a failed step
                for after in [Key::named_field("a"), Key::numbered_field(0), Key::get(0usize), Key::variant("A")] {
                    path.push(after);
                    ctx.case(|| format!("{:?} at {}", x.m(), keys(path)), |st| check(st, x, path, None));
                    path.pop();
                }
            }
            Some(None) => {
                // a variant leads to the enum itself
                ctx.case(|| format!("{:?} at {}", x.m(), keys(path)), |st| check(st, x, path, Some(idx)));
                if depth > 0 && pure {
                    explore(ctx, x, t, m, path, idx, depth - 1, false);
                }
            }
            Some(Some(i)) => {
                idx.push(i);
                ctx.case(|| format!("{:?} at {}", x.m(), keys(path)), |st| check(st, x, path, Some(idx)));
                if depth > 0 && !path[..path.len() - 1].iter().any(|p| *p == k && matches!(p, Key::Get(Value::i8(_)))) {
                    let is_int = matches!(&k, Key::Get(v) if !matches!(v, Value::usize(_) | Value::u8(_)) && !matches!(m, M::Map(_)));
                    if !is_int {
                        explore(ctx, x, &t.child_type(m, i), m.children()[i], path, idx, depth - 1, true);
                    }
                }
                idx.pop();
            }
        }
        path.pop();
    }
}

fn depth(m: &M) -> usize {
    m.children().into_iter().map(|c| 1 + depth(c)).max().unwrap_or(0)
}

/// Along the deepest parts of a deep value, through variant keys or without them.
fn descend(ctx: &mut Ctx, x: &dyn Obj, t: T, m: &M, variants: bool) {
    let (mut t, mut m, mut path, mut idx) = (t, m, vec![], vec![]);
    loop {
        if let (M::Enum(name, ..), true) = (m, variants) {
            path.push(Key::variant(name.clone()));
        }
        explore(ctx, x, &t, m, &mut path, &mut idx, 0, true);
        let children = m.children();
        let Some(i) = (0..children.len()).max_by_key(|i| depth(children[*i])) else { break };
        let Some(k) = alphabet(m).into_iter().find(|k| step(&t, m, k) == Ok(Some(Some(i)))) else { break };
        path.push(k);
        idx.push(i);
        t = t.child_type(m, i);
        m = children[i];
    }
}

fn run(ctx: &mut Ctx) {
    let n = ctx.pick(6, 60);
    let levels = ctx.pick(3, 5);
    for ty in universe() {
        ctx.unit(ty.name, |ctx| {
            for x in ty.all(n, 3) {
                let t = (ty.t)();
                let m = x.m();
                ctx.case(|| format!("{m:?} at the empty path"), |st| check(st, &*x, &[], Some(&[])));
                explore(ctx, &*x, &t, &m, &mut vec![], &mut vec![], levels, true);
                if depth(&m) > 20 {
                    descend(ctx, &*x, (ty.t)(), &m, true);
                    descend(ctx, &*x, (ty.t)(), &m, false);
                }
            }
        });
    }
}
