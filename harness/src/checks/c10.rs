use super::*;
use crate::tree::{self, Style};
use mirror_mirror::enum_::{EnumValue, VariantKind};
use mirror_mirror::key_path::{Key, KeyPath, NamedOrNumbered};
use mirror_mirror::struct_::StructValue;
use mirror_mirror::tuple::TupleValue;
use mirror_mirror::tuple_struct::TupleStructValue;
use mirror_mirror::type_info::graph::{EnumNode, NamedFieldNode, NodeId, StructVariantNode, TypeGraph, VariantNode};
use mirror_mirror::type_info::GetMeta;
use serde::de::DeserializeOwned;
use serde::Serialize;
use speedy::{BigEndian, LittleEndian, Readable, Writable};
use std::collections::BTreeMap;
use std::fmt::Debug;

pub const CHECK: Check = Check {
    id: "C10",
    run,
    bounds: "type erased values: all scalars with extreme values, all composites of up to 2 parts over a set of scalars and one more level (the values of C09), and the type erased form of up to 20 (thorough 400) values nested 3 (4) deep of every type of the universe; key paths of up to 2 (3) keys out of 14; descriptors of all types of the universe; values, paths and descriptors of all sizes up to 40 and around 64, 128 and 256, and 65536 (thorough: also around 512, 16384 and 65536); in the binary format (both byte orders), a self-describing and a compact serde format that keep everything, one (bincode) that only has values in it, and JSON where it can express the value; reading the bytes of a selection cut off at every position and with every byte changed to 12 (all 255) other values",
    extra: None,
};

/// JSON has no NaN or infinity, and only text as keys.
fn json_can(m: &M) -> bool {
    match m {
        M::S(S::F32(f)) => f32::from_bits(*f).is_finite(),
        M::S(S::F64(f)) => f64::from_bits(*f).is_finite(),
        M::Map(e) => e.is_empty(),
        _ => m.children().into_iter().all(json_can),
    }
}

/// Everything that reads what was written.
fn trip<X>(x: &X, json: bool, check: &dyn Fn(&X, &str) -> Result<(), String>) -> Result<usize, String>
where
    X: Serialize + DeserializeOwned + Writable<LittleEndian> + Writable<BigEndian> + for<'a> Readable<'a, LittleEndian> + for<'a> Readable<'a, BigEndian> + Debug,
{
    let mut n = 0;
    let bytes = Writable::<LittleEndian>::write_to_vec(x).map_err(|e| format!("cannot be written: {e}"))?;
    let back = <X as Readable<LittleEndian>>::read_from_buffer(&bytes).map_err(|e| format!("cannot be read back: {e}"))?;
    check(&back, "binary, little endian")?;
    let back = <X as Readable<LittleEndian>>::read_from_stream_unbuffered(&bytes[..]).map_err(|e| format!("cannot be read back from a stream: {e}"))?;
    check(&back, "binary, from a stream")?;
    let again = Writable::<LittleEndian>::write_to_vec(&back).map_err(|e| format!("cannot be written again: {e}"))?;
    ensure!(again == bytes, "what was read is written differently");
    ensure_eq!(
        Writable::<LittleEndian>::bytes_needed(x).map_err(|e| e.to_string())?,
        bytes.len(),
        "announced size"
    );
    // something else may follow
    let mut more = bytes.clone();
    more.extend([7; 9]);
    let (back, used) = <X as Readable<LittleEndian>>::read_with_length_from_buffer(&more);
    ensure_eq!(used, bytes.len(), "bytes read");
    check(&back.map_err(|e| format!("cannot be read back: {e}"))?, "binary, with more following")?;
    let bytes = x.write_to_vec_with_ctx(BigEndian::default()).map_err(|e| format!("cannot be written: {e}"))?;
    let back = <X as Readable<BigEndian>>::read_from_buffer_with_ctx(BigEndian::default(), &bytes).map_err(|e| format!("cannot be read back: {e}"))?;
    check(&back, "binary, big endian")?;
    n += 4;
    for style in [Style::Named, Style::Compact] {
        let t = tree::write(x, style).map_err(|e| format!("cannot be serialized ({style:?}): {e}"))?;
        let back: X = tree::read(&t).map_err(|e| format!("cannot be deserialized ({style:?}): {e}"))?;
        check(&back, &format!("serde, {style:?}"))?;
        ensure!(tree::write(&back, style).is_ok_and(|u| u == t), "what was deserialized ({style:?}) is serialized differently");
        n += 1;
    }
    // without names, lengths of structs or anything else that is in the type
    let bytes = bincode::serialize(x).map_err(|e| format!("cannot be serialized without names: {e}"))?;
    let mut more = bytes.clone();
    more.extend([7; 9]);
    let mut left = &more[..];
    let back: X = bincode::deserialize_from(&mut left).map_err(|e| format!("cannot be deserialized without names: {e}"))?;
    check(&back, "serde, without names")?;
    ensure_eq!(left.len(), 9, "bytes left");
    n += 1;
    let text = serde_json::to_string(x);
    if json {
        let text = text.map_err(|e| format!("no JSON: {e}"))?;
        let back: X = from_json(&text).map_err(|e| format!("JSON cannot be read back: {e}: {text}"))?;
        check(&back, "JSON")?;
        let back: X = from_json(&serde_json::to_string_pretty(x).map_err(|e| e.to_string())?).map_err(|e| e.to_string())?;
        check(&back, "pretty JSON")?;
        n += 2;
    }
    Ok(n)
}

/// However deep it is nested.
fn from_json<X: serde::de::DeserializeOwned>(text: &str) -> serde_json::Result<X> {
    let mut de = serde_json::Deserializer::from_str(text);
    de.disable_recursion_limit();
    let x = X::deserialize(&mut de)?;
    de.end()?;
    Ok(x)
}

fn same_value(m: &M, v: &Value) -> impl Fn(&Value, &str) -> Result<(), String> {
    let (m, v) = (m.clone(), v.clone());
    move |back, how| {
        // bit for bit, in the same order
        exactly(&back.m(), &m, how)?;
        exactly(&observe_at(back), &observe_at(&v), how)?;
        ensure!(*back == v && v == *back, "{how}: {back:?} is not equal to {v:?}");
        ensure!(back.cmp(&v).is_eq(), "{how}: {back:?} is not ordered the same as {v:?}");
        ensure_eq!(hash64(back), hash64(&v), "{how}: hash");
        ensure!(reflect_eq(back, &v) == reflect_eq(&v, &v), "{how}: reflected equality");
        Ok(())
    }
}

fn value(m: &M, st: &mut Stats) -> Result<(), String> {
    let v = m.to_value();
    let m = v.m();
    let json = json_can(&m);
    let n = trip(&v, json, &same_value(&m, &v))?;
    st.tr(n);
    st.state(&m);
    // the parts it is made of are written the same way
    macro_rules! inner {
        ($x:expr) => {{
            let x = $x;
            let n = trip(&x, json, &|back, how| {
                exactly(&observe(back), &m, how)?;
                ensure!(*back == x, "{how}: {back:?} is not equal to {x:?}");
                Ok(())
            })?;
            st.tr(n);
        }};
    }
    match &m {
        M::Struct(_) => inner!(as_struct(v).unwrap()),
        M::TupleStruct(_) => inner!(as_tuple_struct(v).unwrap()),
        M::Tuple(_) => inner!(as_tuple(v).unwrap()),
        M::Enum(..) => inner!(as_enum(v).unwrap()),
        M::S(s) => {
            let x = (Box::new(v) as Box<dyn Reflect>).into_scalar().ok_or("no scalar")?;
            st.tr(trip(&x, json, &|back, how| {
                ensure_eq!(scalar_owned(back), *s, "{how}");
                Ok(())
            })?);
        }
        _ => {}
    }
    let _ = (StructValue::new(), TupleStructValue::new(), TupleValue::new(), None::<EnumValue>, None::<VariantKind>);
    Ok(())
}

fn keys() -> Vec<Key> {
    let mut out = vec![
        Key::Field(NamedOrNumbered::Named("a".into())),
        Key::Field(NamedOrNumbered::Named(String::new())),
        Key::Field(NamedOrNumbered::Named("0".into())),
        Key::Field(NamedOrNumbered::Numbered(0)),
        Key::Field(NamedOrNumbered::Numbered(usize::MAX)),
        Key::Variant("a".into()),
        Key::Variant(String::new()),
    ];
    out.extend(
        [
            M::S(S::I32(-1)),
            M::S(S::Str("a".into())),
            M::S(S::U128(u128::MAX)),
            M::S(S::Bool(false)),
            M::List(vec![M::S(S::Char('\u{10ffff}'))]),
            st(&[("b", M::S(S::I8(0))), ("a", M::S(S::I8(1)))]),
            map(vec![(M::S(S::F32(f32::NAN.to_bits())), M::S(S::U8(1)))]),
        ]
        .map(|m| Key::Get(m.to_value())),
    );
    out
}

/// One composite of each kind with `n` parts, and a text of `n` bytes.
fn sized(n: usize) -> Vec<M> {
    let part = |i: usize| if i % 7 == 3 { M::S(S::Str(format!("{i}"))) } else { M::S(S::U16(i as u16)) };
    let seq: Vec<M> = (0..n).map(part).collect();
    let named: Vec<(String, M)> = (0..n).map(|i| (format!("f{}", n - i), part(i))).collect();
    vec![
        M::S(S::Str("x".repeat(n))),
        M::Tuple(seq.clone()),
        M::TupleStruct(seq.clone()),
        M::List(seq.clone()),
        M::Struct(named.clone()),
        M::Enum("y".repeat(n), VK::Tuple, seq.into_iter().map(|m| (None, m)).collect()),
        M::Enum("A".into(), VK::Struct, named.into_iter().map(|(n, m)| (Some(n), m)).collect()),
        map((0..n).map(|i| (M::S(S::U32(i as u32)), part(i))).collect()),
    ]
}

/// An enum of `N` struct variants of few fields and one of `N` fields, with `N` lines of
/// documentation and `N` meta values here and there.
struct Wide<const N: usize>;

impl<const N: usize> DescribeType for Wide<N> {
    fn build(graph: &mut TypeGraph) -> NodeId {
        graph.get_or_build_node_with::<Self, _>(|graph| {
            let name = |c: char, i: usize| &*Box::leak(format!("{c}{i}").into_boxed_str());
            let docs: Vec<&'static str> = (0..N).map(|i| name('d', i)).collect();
            let meta: BTreeMap<&'static str, Value> = (0..N).map(|i| (name('m', i), Value::from(i as i32))).collect();
            let mut variants: Vec<_> = (0..N)
                .map(|i| {
                    let field = NamedFieldNode::new::<u8>(
                        "x",
                        if i == 1 { meta.clone() } else { Default::default() },
                        if i == 2 { &docs } else { &[] },
                        graph,
                    );
                    VariantNode::Struct(StructVariantNode::new(name('v', i), &[field], Default::default(), &[]))
                })
                .collect();
            let fields: Vec<_> =
                (0..N).map(|i| NamedFieldNode::new::<u16>(name('f', N - i), Default::default(), &[], graph)).collect();
            variants.push(VariantNode::Struct(StructVariantNode::new("wide", &fields, Default::default(), &docs)));
            EnumNode::new::<Self>(&variants, meta, &docs)
        })
    }
}

fn wide_descriptor(n: usize) -> Option<TypeDescriptor> {
    macro_rules! sizes {
        ($($n:literal)*) => {
            match n {
                $($n => Some(<Wide<$n> as DescribeType>::type_descriptor().into_owned()),)*
                _ => None,
            }
        };
    }
    sizes!(0 1 2 3 5 8 16 31 32 33 64 127 128 254 255 256 257 300)
}

/// Reading damaged bytes. From a buffer only: from a stream, speedy reserves memory for any length
/// that the bytes announce.
fn damaged<X>(x: &X, tier: Tier, st: &mut Stats) -> Result<(), String>
where
    X: Writable<LittleEndian> + for<'a> Readable<'a, LittleEndian> + PartialEq,
{
    let bytes = x.write_to_vec().map_err(|e| e.to_string())?;
    for n in 0..bytes.len() {
        if X::read_from_buffer(&bytes[..n]).is_ok_and(|y| y == *x) {
            return Err(format!("{n} of {} bytes are read as the whole", bytes.len()));
        }
        st.tr(1);
    }
    let mut broken = bytes.clone();
    for i in 0..bytes.len() {
        for k in 1..=255u8 {
            if !matches!(tier, Tier::Thorough) && !matches!(k, 1 | 2 | 4 | 8 | 16 | 32 | 64 | 128 | 255 | 127 | 3 | 5) {
                continue;
            }
            broken[i] = bytes[i] ^ k;
            if let Ok(y) = X::read_from_buffer(&broken) {
                // whatever it is, it's a value that is equal to itself
                ensure!(y == y, "byte {i} changed by {k}: not equal to itself");
                drop(y);
            }
            st.tr(1);
        }
        broken[i] = bytes[i];
    }
    st.state(&bytes);
    Ok(())
}

fn descriptor(d: &TypeDescriptor, t: &T, depth: usize) -> Result<(), String> {
    let mut n = 0;
    types::cmp_type(&mut n, d.get_type(), t, depth)?;
    let mut n = 0;
    c21::everywhere(d, t, depth, &mut n)?;
    Ok(())
}

fn run(ctx: &mut Ctx) {
    let thorough = matches!(ctx.tier, Tier::Thorough);
    let tier = ctx.tier;
    let corpus = c09::corpus(thorough);
    for (i, chunk) in corpus.chunks(64).enumerate() {
        ctx.unit(&format!("values {i}"), |ctx| {
            for m in chunk {
                ctx.case(|| format!("{m:?}"), |st| value(m, st));
            }
        });
    }
    let (n, d) = (ctx.pick(20, 400), ctx.pick(3, 4));
    for t in universe() {
        ctx.unit(t.name, |ctx| {
            for x in t.all(n, d) {
                let m = x.m();
                if m.has_opaque() {
                    continue;
                }
                ctx.case(|| format!("{m:?}"), |st| value(&m.erased(), st));
            }
            ctx.case(
                || "descriptor".to_owned(),
                |st| {
                    let desc = (t.desc)().into_owned();
                    let ty = (t.t)();
                    st.tr(trip(&desc, true, &|back, how| {
                        ensure!(*back == desc, "{how}: not equal to the descriptor written");
                        ensure_eq!(hash64(back), hash64(&desc), "{how}: hash");
                        descriptor(back, &ty, 3).map_err(|e| format!("{how}: {e}"))?;
                        ensure_eq!(back.has_default_value(), desc.has_default_value(), "{how}: has_default_value");
                        ensure_eq!(format!("{back:?}"), format!("{desc:?}"), "{how}: debug output");
                        c13::inner(back.get_type(), &desc.default_value().map(|v| v.m())).map_err(|e| format!("{how}: {e}"))
                    })?);
                    st.state(&t.name);
                    Ok(())
                },
            );
        });
    }
    // sizes around those at which the number of bytes a length takes changes
    let mut sizes: Vec<usize> = (0..=40).chain([63, 64, 127, 128, 129, 254, 255, 256, 257, 300, 65536]).collect();
    if thorough {
        sizes.extend([511, 512, 1000, 16383, 16384, 65534, 65535, 65537]);
    }
    for n in sizes {
        ctx.unit(&format!("size {n}"), |ctx| {
            for m in sized(n) {
                ctx.case(|| format!("{} of size {n}", m.kind()), |st| value(&m, st));
            }
            ctx.case(
                || format!("key path of {n} keys"),
                |st| {
                    let keys = keys();
                    let path: KeyPath = (0..n).map(|i| keys[i % (keys.len() - 1)].clone()).collect();
                    st.tr(trip(&path, true, &|back, how| {
                        ensure!(*back == path && back.len() == n, "{how}: other keys");
                        Ok(())
                    })?);
                    Ok(())
                },
            );
            ctx.case(
                || format!("descriptor of size {n}"),
                |st| {
                    let Some(desc) = wide_descriptor(n) else { return Ok(()) };
                    st.tr(trip(&desc, true, &|back, how| {
                        ensure!(*back == desc, "{how}: not equal to the descriptor written");
                        let e = back.as_enum().ok_or("no enum")?;
                        ensure_eq!(e.variants_len(), n + 1, "{how}: variants");
                        let names = |d: &TypeDescriptor| {
                            d.as_enum().unwrap().variants().map(|v| (v.name().to_owned(), v.field_types().map(|f| (f.name().map(str::to_owned), f.docs().to_vec(), (0..n).map(|i| f.get_meta::<i32>(&format!("m{i}"))).collect::<Vec<_>>())).collect::<Vec<_>>(), v.docs().to_vec())).collect::<Vec<_>>()
                        };
                        ensure!(names(back) == names(&desc), "{how}: other variants, fields, docs or meta data");
                        Ok(())
                    })?);
                    Ok(())
                },
            );
        });
    }
    ctx.unit("key paths", |ctx| {
        let keys = keys();
        let mut all: Vec<Vec<usize>> = vec![vec![]];
        let mut last = all.clone();
        for _ in 0..ctx.pick(2, 3) {
            last = last
                .into_iter()
                .flat_map(|p| {
                    (0..keys.len()).map(move |k| {
                        let mut p = p.clone();
                        p.push(k);
                        p
                    })
                })
                .collect();
            all.extend(last.iter().cloned());
        }
        for p in all {
            let path: KeyPath = p.iter().map(|i| keys[*i].clone()).collect();
            // the last key isn't possible in JSON
            let json = p.iter().all(|i| *i != keys.len() - 1);
            ctx.case(
                || format!("{path:?}"),
                |st| {
                    st.state(&p);
                    st.tr(trip(&path, json, &|back, how| {
                        ensure_eq!(*back, path, "{how}");
                        ensure!(back.iter().eq(p.iter().map(|i| &keys[*i])), "{how}: other keys");
                        ensure_eq!(back.to_string(), path.to_string(), "{how}: text");
                        Ok(())
                    })?);
                    if let [k] = p[..] {
                        st.tr(trip(&keys[k], json, &|back, how| {
                            ensure_eq!(*back, keys[k], "{how}");
                            Ok(())
                        })?);
                    }
                    Ok(())
                },
            );
        }
    });
    let step = ctx.pick(5, 1);
    for (i, chunk) in corpus.chunks(64).enumerate() {
        ctx.unit(&format!("damaged values {i}"), |ctx| {
            for m in chunk.iter().step_by(step) {
                ctx.case(|| format!("{m:?}, damaged"), |st| damaged(&m.to_value(), tier, st));
            }
        });
    }
    for t in universe() {
        ctx.unit(&format!("damaged {}", t.name), |ctx| {
            if let Some(x) = (t.vals)(n, d).last().filter(|x| !x.m().has_opaque()) {
                ctx.case(|| "last value, damaged".to_owned(), |st| damaged(&x.r().to_value(), tier, st));
            }
            let desc = (t.desc)().into_owned();
            let len = desc.write_to_vec().map_or(0, |b| b.len());
            if len < if thorough { 1500 } else { 500 } {
                ctx.case(|| "descriptor, damaged".to_owned(), |st| damaged(&desc, tier, st));
            }
        });
    }
    ctx.unit("damaged key paths", |ctx| {
        for a in keys() {
            for b in keys() {
                let path: KeyPath = [a.clone(), b].into_iter().collect();
                ctx.case(|| format!("{path:?}, damaged"), |st| damaged(&path, tier, st));
            }
        }
    });
}
