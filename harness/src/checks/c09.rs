use super::*;
use mirror_mirror::key_path::{Key, KeyPath};
use std::cmp::Ordering;
use std::collections::{BTreeMap, HashMap};

pub const CHECK: Check = Check {
    id: "C09",
    run,
    bounds: "every scalar type with its extreme values (floats: both zeros, infinities, subnormals, NaNs of different sign and payload); all structs, tuples, tuple structs, lists, maps and enum variants of up to 2 parts over a set of scalars; one more level over a selection (thorough: a larger set of scalars and one more level over more); all pairs, and the order among all of them",
    extra: None,
};

pub fn scalars() -> Vec<S> {
    let mut out = vec![];
    macro_rules! ints {
        ($($v:ident $t:ident),*) => {$(
            let mut vs = vec![$t::MIN, 0, 1, 2, $t::MAX, $t::MAX - 1];
            vs.dedup();
            out.extend(vs.into_iter().map(S::$v));
        )*};
    }
    ints!(Usize usize, U8 u8, U16 u16, U32 u32, U64 u64, U128 u128, I8 i8, I16 i16, I32 i32, I64 i64, I128 i128);
    out.push(S::U128(1 << 64));
    out.push(S::I128(-1));
    out.push(S::I8(-1));
    out.push(S::I32(-1));
    out.extend([S::Bool(false), S::Bool(true)]);
    out.extend(['\0', 'a', 'b', '\u{d7ff}', '\u{10ffff}'].map(S::Char));
    out.extend(
        [
            0.0,
            -0.0,
            1.0,
            -1.0,
            f32::NAN,
            -f32::NAN,
            f32::from_bits(0x7f80_0001),
            f32::from_bits(0xffff_ffff),
            f32::INFINITY,
            f32::NEG_INFINITY,
            f32::MIN_POSITIVE,
            f32::from_bits(1),
            f32::from_bits(0x8000_0001),
            f32::MAX,
        ]
        .map(|f| S::F32(f.to_bits())),
    );
    out.extend(
        [
            0.0,
            -0.0,
            1.0,
            -1.0,
            f64::NAN,
            -f64::NAN,
            f64::from_bits(0x7ff0_0000_0000_0001),
            f64::from_bits(u64::MAX),
            f64::INFINITY,
            f64::NEG_INFINITY,
            f64::MIN_POSITIVE,
            f64::from_bits(1),
            f64::from_bits(0x8000_0000_0000_0001),
            f64::MAX,
            f32::MAX as f64,
        ]
        .map(|f| S::F64(f.to_bits())),
    );
    out.extend(["", "a", "b", "aa", "ab", "A", "0", "\0", "é", "日本", "a\0"].map(|s| S::Str(s.into())));
    out
}

/// All composites with up to two of the given parts.
fn compose(parts: &[M]) -> Vec<M> {
    let mut seqs: Vec<Vec<M>> = vec![vec![]];
    for a in parts {
        seqs.push(vec![a.clone()]);
        for b in parts {
            seqs.push(vec![a.clone(), b.clone()]);
        }
    }
    let mut out = vec![];
    for s in &seqs {
        out.push(M::Tuple(s.clone()));
        out.push(M::TupleStruct(s.clone()));
        out.push(M::List(s.clone()));
        for n in ["A", "B"] {
            out.push(M::Enum(n.into(), VK::Tuple, s.iter().map(|m| (None, m.clone())).collect()));
        }
        let names: &[&[&str]] = match s.len() {
            0 => &[&[]],
            1 => &[&["a"], &["b"]],
            _ => &[&["a", "b"], &["b", "a"], &["a", "c"]],
        };
        for names in names {
            out.push(M::Struct(names.iter().map(|n| n.to_string()).zip(s.iter().cloned()).collect()));
            out.push(M::Enum(
                "A".into(),
                VK::Struct,
                names.iter().map(|n| Some(n.to_string())).zip(s.iter().cloned()).collect(),
            ));
        }
        if let [a, b] = &s[..] {
            out.push(map(vec![(a.clone(), b.clone())]));
        }
    }
    out.push(M::Enum("A".into(), VK::Unit, vec![]));
    out.push(M::Enum("B".into(), VK::Unit, vec![]));
    out.push(M::Enum("".into(), VK::Unit, vec![]));
    out.push(map(vec![]));
    // maps of two entries
    for (i, a) in parts.iter().enumerate() {
        for b in &parts[..i] {
            for v in parts.iter().take(2) {
                out.push(map(vec![(a.clone(), v.clone()), (b.clone(), parts[0].clone())]));
            }
        }
    }
    out
}

pub fn corpus(thorough: bool) -> Vec<M> {
    let i = |n| M::S(S::I32(n));
    let f = |f: f32| M::S(S::F32(f.to_bits()));
    let s = |v: &str| M::S(S::Str(v.to_owned()));
    let mut base = vec![i(0), i(1), M::S(S::U32(0)), f(0.0), f(-0.0), f(f32::NAN)];
    if thorough {
        base.extend([s("a"), f(-f32::NAN), M::S(S::F64(0)), s("")]);
    }
    let mut out: Vec<M> = scalars().into_iter().map(M::S).collect();
    out.extend(compose(&base));
    // one more level
    let mut inner = vec![
        M::List(vec![f(0.0)]),
        M::List(vec![f(-0.0)]),
        st(&[("a", i(0)), ("b", i(1))]),
        st(&[("b", i(1)), ("a", i(0))]),
        map(vec![(i(0), f(f32::NAN))]),
    ];
    if thorough {
        inner.extend([
            M::Tuple(vec![i(0)]),
            M::TupleStruct(vec![i(0)]),
            en("A", VK::Unit, &[]),
            en("A", VK::Tuple, &[("", i(0))]),
            en("A", VK::Struct, &[("a", i(0))]),
            map(vec![(f(0.0), i(1))]),
            map(vec![(f(-0.0), i(1))]),
        ]);
    }
    out.extend(compose(&inner));
    // names and lengths
    for n in ["a", "ab", "", "A", "ba"] {
        out.push(st(&[(n, i(0))]));
        out.push(en(n, VK::Unit, &[]));
        out.push(en(n, VK::Tuple, &[]));
        out.push(en(n, VK::Struct, &[]));
        out.push(en(n, VK::Struct, &[(n, i(0))]));
    }
    for len in 3..6 {
        let e: Vec<M> = (0..len).map(i).collect();
        out.push(M::List(e.clone()));
        out.push(M::Tuple(e.clone()));
        out.push(M::TupleStruct(e.clone()));
        out.push(map(e.iter().map(|x| (x.clone(), i(0))).collect()));
        out.push(M::Struct(e.iter().enumerate().map(|(n, x)| (format!("f{n}"), x.clone())).collect()));
        // all orders of three fields
    }
    let names = ["a", "b", "c"];
    for (x, y, z) in [(0, 1, 2), (0, 2, 1), (1, 0, 2), (1, 2, 0), (2, 0, 1), (2, 1, 0)] {
        out.push(st(&[(names[x], i(x as i32)), (names[y], i(y as i32)), (names[z], i(z as i32))]));
    }
    valid_erased(out)
}

fn h<X: std::hash::Hash>(x: &X) -> u64 {
    use std::hash::Hasher;
    let mut h = std::collections::hash_map::DefaultHasher::new();
    x.hash(&mut h);
    h.finish()
}

/// The laws between two values of one type, of which it's known whether they are equal.
fn laws<X: Ord + std::hash::Hash>(a: &X, b: &X, equal: bool) -> Result<(), String> {
    ensure_eq!(a == b, equal, "==");
    ensure_eq!(b == a, equal, "== the other way round");
    ensure_eq!(a != b, !equal, "!=");
    let o = a.cmp(b);
    ensure_eq!(o == Ordering::Equal, equal, "order says equal");
    ensure_eq!(b.cmp(a), o.reverse(), "order the other way round");
    ensure_eq!(a.partial_cmp(b), Some(o), "partial order");
    ensure_eq!(a < b, o == Ordering::Less, "<");
    ensure_eq!(a > b, o == Ordering::Greater, ">");
    ensure_eq!(a <= b, o != Ordering::Greater, "<=");
    ensure_eq!(a >= b, o != Ordering::Less, ">=");
    if equal {
        ensure_eq!(h(a), h(b), "hash");
    }
    Ok(())
}

fn pair(a: &Value, b: &Value, equal: bool) -> Result<(), String> {
    laws(a, b, equal)?;
    match (a, b) {
        (Value::StructValue(a), Value::StructValue(b)) => laws(a, b, equal),
        (Value::EnumValue(a), Value::EnumValue(b)) => laws(a, b, equal),
        (Value::TupleValue(a), Value::TupleValue(b)) => laws(a, b, equal),
        (Value::TupleStructValue(a), Value::TupleStructValue(b)) => laws(a, b, equal),
        _ => Ok(()),
    }
}

fn run(ctx: &mut Ctx) {
    let ms = corpus(ctx.tier == Tier::Thorough);
    let norms: Vec<M> = ms.iter().map(|m| m.key_norm()).collect();
    let values: Vec<Value> = ms.iter().map(|m| m.to_value()).collect();
    let n = ms.len();
    let chunk = 50;
    for start in (0..n).step_by(chunk) {
        ctx.unit(&format!("pairs from {start}"), |ctx| {
            for i in start..n.min(start + chunk) {
                ctx.case(
                    || format!("{:?} and the others", ms[i]),
                    |st| {
                        let other = ms[i].to_value();
                        st.state(&ms[i]);
                        for j in 0..n {
                            pair(&other, &values[j], norms[i] == norms[j])
                                .map_err(|e| format!("with {:?}: {e}", ms[j]))?;
                        }
                        st.tr(n * 12);
                        let clone = other.clone();
                        pair(&clone, &other, true).map_err(|e| format!("with its clone: {e}"))?;
                        // the same value read from other representations
                        let erased = <Value as FromReflect>::from_reflect(&other).unwrap();
                        pair(&erased, &other, true).map_err(|e| format!("with its own erased form: {e}"))?;
                        Ok(())
                    },
                );
            }
        });
    }
    // the order among all of them: rows of the comparison matrix
    for start in (0..n).step_by(chunk) {
        ctx.unit(&format!("order from {start}"), |ctx| {
            ctx.case(
                || format!("order among all values, from {start}"),
                |st| {
                    let mut sorted: Vec<usize> = (0..n).collect();
                    sorted.sort_by(|a, b| values[*a].cmp(&values[*b]));
                    let mut rank = vec![0; n];
                    for w in 1..n {
                        let (a, b) = (sorted[w - 1], sorted[w]);
                        rank[b] = rank[a] + usize::from(values[a].cmp(&values[b]) != Ordering::Equal);
                    }
                    for i in start..n.min(start + chunk) {
                        for j in 0..n {
                            ensure_eq!(
                                values[i].cmp(&values[j]),
                                rank[i].cmp(&rank[j]),
                                "not transitive: {:?} and {:?}",
                                ms[i],
                                ms[j]
                            );
                        }
                        st.tr(n);
                    }
                    Ok(())
                },
            );
        });
    }
    // use as keys
    ctx.unit("keys of maps", |ctx| {
        let orders: Vec<(&str, Vec<usize>)> = vec![
            ("in order", (0..n).collect()),
            ("in reverse", (0..n).rev().collect()),
            ("with a stride of 7", (0..7).flat_map(|s| (s..n).step_by(7)).collect()),
            ("from the ends", (0..n).map(|i| if i % 2 == 0 { i / 2 } else { n - 1 - i / 2 }).collect()),
        ];
        for (what, order) in &orders {
            ctx.case(
                || format!("inserting all values {what}"),
                |st| {
                    let mut expected: HashMap<&M, usize> = HashMap::new();
                    let mut b: BTreeMap<Value, usize> = BTreeMap::new();
                    let mut hm: HashMap<Value, usize> = HashMap::new();
                    let mut reflected = Value::Map(BTreeMap::new());
                    for &i in order {
                        let old = expected.insert(&norms[i], i);
                        ensure_eq!(b.insert(ms[i].to_value(), i), old, "inserting {:?} in an ordered map", ms[i]);
                        ensure_eq!(hm.insert(ms[i].to_value(), i), old, "inserting {:?} in a hash map", ms[i]);
                        let map = reflected.as_map_mut().ok_or("not a map")?;
                        let got = map
                            .insert(&values[i], &i);
                        let got = got.and_then(|v| rd_usize(&*v));
                        ensure_eq!(got, old, "inserting {:?} in a reflected map", ms[i]);
                        st.tr(3);
                    }
                    ensure_eq!(b.len(), expected.len(), "length of the ordered map");
                    ensure_eq!(hm.len(), expected.len(), "length of the hash map");
                    let map = reflected.as_map().ok_or("not a map")?;
                    ensure_eq!(map.len(), expected.len(), "length of the reflected map");
                    for i in 0..n {
                        let want = expected.get(&norms[i]).copied();
                        ensure_eq!(b.get(&values[i]).copied(), want, "finding {:?} in an ordered map", ms[i]);
                        ensure_eq!(hm.get(&values[i]).copied(), want, "finding {:?} in a hash map", ms[i]);
                        ensure_eq!(map.get(&values[i]).and_then(rd_usize), want, "finding {:?} in a reflected map", ms[i]);
                        st.tr(3);
                    }
                    Ok(())
                },
            );
        }
    });
    // keys and key paths compare and hash as the values in them
    let m = n.min(400);
    ctx.unit("key paths", |ctx| {
        for i in 0..m {
            ctx.case(
                || format!("key of {:?} and the others", ms[i]),
                |st| {
                    let k = Key::Get(values[i].clone());
                    let kp: KeyPath = [Key::variant("A"), k.clone()].into_iter().collect();
                    for j in 0..m {
                        let k2 = Key::Get(values[j].clone());
                        let eq = norms[i] == norms[j];
                        ensure_eq!(k == k2, eq, "equality of keys with {:?}", ms[j]);
                        let kp2: KeyPath = [Key::variant("A"), k2.clone()].into_iter().collect();
                        ensure_eq!(kp == kp2, eq, "equality of key paths with {:?}", ms[j]);
                        if eq {
                            ensure_eq!(h(&k), h(&k2), "hash of keys");
                            ensure_eq!(h(&kp), h(&kp2), "hash of key paths");
                        }
                        let one: KeyPath = [k2].into_iter().collect();
                        ensure!(kp != one, "key paths of different lengths are equal");
                    }
                    st.tr(m * 3);
                    Ok(())
                },
            );
        }
    });
}

fn rd_usize(r: &dyn Reflect) -> Option<usize> {
    match observe(r) {
        M::S(S::Usize(n)) => Some(n),
        _ => None,
    }
}
