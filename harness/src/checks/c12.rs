use super::*;
use mirror_mirror::enum_::{EnumValue, StructVariantBuilder, TupleVariantBuilder, VariantFieldMut};
use mirror_mirror::struct_::StructValue;
use mirror_mirror::tuple::TupleValue;
use mirror_mirror::tuple_struct::TupleStructValue;

pub const CHECK: Check = Check {
    id: "C12",
    run,
    bounds: "all sequences of up to 4 (thorough 5) building steps over 3 names and 3 values, from every way of starting, for struct, tuple struct, tuple, enum values and the variant builders; all iterators of up to 5 (6) items; all ways of converting each scalar",
    extra: None,
};

/// Something being built.
#[derive(Clone)]
enum St {
    Struct(StructValue),
    TupleStruct(TupleStructValue),
    Tuple(TupleValue),
    StructBuilder(StructVariantBuilder),
    TupleBuilder(TupleVariantBuilder),
    Enum(EnumValue),
}

impl St {
    fn value(&self) -> Value {
        match self.clone() {
            St::Struct(s) => s.into(),
            St::TupleStruct(s) => s.into(),
            St::Tuple(s) => s.into(),
            St::StructBuilder(s) => s.finish().into(),
            St::TupleBuilder(s) => s.finish().into(),
            St::Enum(s) => s.into(),
        }
    }

    fn reflect(&mut self) -> Option<&mut dyn Reflect> {
        Some(match self {
            St::Struct(s) => s,
            St::TupleStruct(s) => s,
            St::Tuple(s) => s,
            St::Enum(s) => s,
            St::StructBuilder(_) | St::TupleBuilder(_) => return None,
        })
    }
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum Op {
    /// name, value
    Set(usize, usize),
    With(usize, usize),
    Push(usize),
    WithPushed(usize),
    /// change the field, by name, index or iteration
    ByName(usize),
    ByIndex(usize),
    ByIter(usize),
    Patch(usize),
    /// go through another representation
    Clone,
    ViaValue,
    ViaReflect,
    Collect,
    Finish,
}

const NAMES: [&str; 3] = ["b", "a", "c"];

fn value(i: usize) -> M {
    match i {
        0 => M::S(S::I32(1)),
        1 => M::S(S::Str("x".into())),
        _ => st(&[("z", M::S(S::U8(4))), ("y", M::S(S::U8(5)))]),
    }
}

fn ops(named: bool) -> Vec<Op> {
    let mut out = vec![];
    for i in 0..3 {
        if named {
            for n in 0..3 {
                out.push(Op::Set(n, i));
            }
            out.push(Op::With(i, (i + 1) % 3));
            out.push(Op::ByName(i));
        } else {
            out.push(Op::Push(i));
            out.push(Op::WithPushed(i));
        }
        out.push(Op::ByIndex(i));
        out.push(Op::ByIter(i));
    }
    out.extend([Op::Patch(0), Op::Patch(1), Op::Clone, Op::ViaValue, Op::ViaReflect, Op::Collect, Op::Finish]);
    out
}

fn set(fields: &mut Vec<(String, M)>, n: &str, v: M) {
    match fields.iter_mut().find(|(f, _)| f == n) {
        Some(f) => f.1 = v,
        None => fields.push((n.to_owned(), v)),
    }
}

/// The same for the content.
fn m_set(m: &mut M, n: &str, v: M) -> bool {
    match m {
        M::Struct(f) => {
            set(f, n, v);
            true
        }
        M::Enum(_, VK::Struct, f) => {
            match f.iter_mut().find(|(f, _)| f.as_deref() == Some(n)) {
                Some(f) => f.1 = v,
                None => f.push((Some(n.to_owned()), v)),
            }
            true
        }
        _ => false,
    }
}

fn m_push(m: &mut M, v: M) -> bool {
    match m {
        M::TupleStruct(f) | M::Tuple(f) => {
            f.push(v);
            true
        }
        M::Enum(_, VK::Tuple, f) => {
            f.push((None, v));
            true
        }
        _ => false,
    }
}

/// `None` when the step does not apply.
fn apply(s: &St, m: &M, op: Op) -> Option<Result<(St, M), String>> {
    let mut s = s.clone();
    let mut m = m.clone();
    match op {
        Op::Set(n, v) => {
            if !m_set(&mut m, NAMES[n], value(v)) {
                return None;
            }
            let v = value(v).to_value();
            match &mut s {
                St::Struct(s) => s.set_field(NAMES[n], v),
                St::StructBuilder(s) => s.set_struct_field(NAMES[n], v),
                St::Enum(s) => s.set_struct_field(NAMES[n], v),
                _ => return None,
            }
        }
        Op::With(n, v) => {
            if !m_set(&mut m, NAMES[n], value(v)) {
                return None;
            }
            let v = value(v).to_value();
            s = match s {
                St::Struct(s) => St::Struct(s.with_field(NAMES[n].to_owned(), v)),
                St::StructBuilder(s) => St::StructBuilder(s.with_struct_field(NAMES[n].to_owned(), v)),
                St::Enum(s) => St::Enum(s.with_struct_field(NAMES[n].to_owned(), v)),
                _ => return None,
            }
        }
        Op::Push(v) => {
            if !m_push(&mut m, value(v)) {
                return None;
            }
            let v = value(v).to_value();
            match &mut s {
                St::TupleStruct(s) => s.push_field(v),
                St::Tuple(s) => s.push_field(v),
                St::TupleBuilder(s) => s.push_tuple_field(v),
                St::Enum(s) => s.push_tuple_field(v),
                _ => return None,
            }
        }
        Op::WithPushed(v) => {
            if !m_push(&mut m, value(v)) {
                return None;
            }
            let v = value(v).to_value();
            s = match s {
                St::TupleStruct(s) => St::TupleStruct(s.with_field(v)),
                St::Tuple(s) => St::Tuple(s.with_field(v)),
                St::TupleBuilder(s) => St::TupleBuilder(s.with_tuple_field(v)),
                St::Enum(s) => St::Enum(s.with_tuple_field(v)),
                _ => return None,
            }
        }
        Op::ByName(n) => {
            let i = match &m {
                M::Struct(f) => f.iter().position(|(f, _)| f == NAMES[n]),
                M::Enum(_, VK::Struct, f) => f.iter().position(|(f, _)| f.as_deref() == Some(NAMES[n])),
                _ => return None,
            };
            let field = match s.reflect()?.reflect_mut() {
                ReflectMut::Struct(s) => s.field_mut(NAMES[n]),
                ReflectMut::Enum(s) => s.field_mut(NAMES[n]),
                _ => return Some(Err("not a struct or an enum".into())),
            };
            match (i, field) {
                (None, None) => return None,
                (Some(i), Some(field)) => {
                    if let Some(new) = poke(field, m.children()[i]) {
                        *m.child_mut(i) = new;
                    }
                }
                (_, field) => return Some(Err(format!("field {:?} is there: {}", NAMES[n], field.is_some()))),
            }
        }
        Op::ByIndex(i) => {
            let there = i < m.children().len();
            match (there, child_mut(s.reflect()?, i)) {
                (false, None) => return None,
                (true, Some(field)) => {
                    if let Some(new) = poke(field, m.children()[i]) {
                        *m.child_mut(i) = new;
                    }
                }
                (_, field) => return Some(Err(format!("field {i} is there: {}", field.is_some()))),
            }
        }
        Op::ByIter(i) => {
            let there = i < m.children().len();
            let field = match s.reflect()?.reflect_mut() {
                ReflectMut::Struct(s) => s.fields_mut().nth(i).map(|(_, f)| f),
                ReflectMut::TupleStruct(s) => s.fields_mut().nth(i),
                ReflectMut::Tuple(s) => s.fields_mut().nth(i),
                ReflectMut::Enum(s) => s.fields_mut().nth(i).map(|f| match f {
                    VariantFieldMut::Struct(_, f) | VariantFieldMut::Tuple(f) => f,
                }),
                _ => return Some(Err("another kind".into())),
            };
            match (there, field) {
                (false, None) => return None,
                (true, Some(field)) => {
                    if let Some(new) = poke(field, m.children()[i]) {
                        *m.child_mut(i) = new;
                    }
                }
                (_, field) => return Some(Err(format!("field {i} is there: {}", field.is_some()))),
            }
        }
        Op::Patch(which) => {
            // a patch for the first or last field, with something more
            if m.children().is_empty() {
                return None;
            }
            let idx = if which == 0 { 0 } else { m.children().len() - 1 };
            let leaf = leaves(m.children()[idx]).pop()?;
            let mut p = m.clone();
            let mut path = vec![idx];
            path.extend(leaf);
            let new = leaf_alt(p.get(&path));
            *p.get_mut(&path) = new;
            m = p.clone();
            match &mut p {
                M::Struct(f) => f.push(("zzz".into(), value(0))),
                M::TupleStruct(f) | M::Tuple(f) => f.push(value(0)),
                _ => {}
            }
            s.reflect()?.patch(&p.to_value());
        }
        Op::Clone => {
            if let Some(r) = s.clone().reflect() {
                let c = r.clone_reflect();
                s = match s {
                    St::Struct(_) => St::Struct(c.downcast_ref::<StructValue>().cloned()?),
                    St::TupleStruct(_) => St::TupleStruct(c.downcast_ref::<TupleStructValue>().cloned()?),
                    St::Tuple(_) => St::Tuple(c.downcast_ref::<TupleValue>().cloned()?),
                    St::Enum(_) => St::Enum(c.downcast_ref::<EnumValue>().cloned()?),
                    s => s,
                };
            }
        }
        Op::ViaValue => {
            let v = s.value();
            s = match v {
                Value::StructValue(s) => St::Struct(*s),
                Value::TupleStructValue(s) => St::TupleStruct(s),
                Value::TupleValue(s) => St::Tuple(s),
                Value::EnumValue(s) => St::Enum(*s),
                _ => return Some(Err("became a value of another kind".into())),
            };
        }
        Op::ViaReflect => {
            let r = s.reflect()? as &dyn Reflect;
            let new = match &m {
                M::Struct(_) => StructValue::from_reflect(r).map(St::Struct),
                M::TupleStruct(_) => TupleStructValue::from_reflect(r).map(St::TupleStruct),
                M::Tuple(_) => TupleValue::from_reflect(r).map(St::Tuple),
                _ => EnumValue::from_reflect(r).map(St::Enum),
            };
            match new {
                Some(new) => s = new,
                None => return Some(Err("cannot be read as what it is".into())),
            }
        }
        Op::Collect => {
            let r = s.reflect()? as &dyn Reflect;
            s = match r.reflect_ref() {
                ReflectRef::Struct(s) => {
                    St::Struct(s.fields().map(|(n, v)| (n, v.to_value())).collect::<StructValue>())
                }
                ReflectRef::TupleStruct(s) => St::TupleStruct(s.fields().map(|v| v.to_value()).collect()),
                ReflectRef::Tuple(s) => St::Tuple(s.fields().map(|v| v.to_value()).collect()),
                _ => return None,
            };
        }
        Op::Finish => {
            s = match s {
                St::StructBuilder(s) => St::Enum(s.finish()),
                St::TupleBuilder(s) => St::Enum(s.finish()),
                _ => return None,
            }
        }
    }
    Some(Ok((s, m)))
}

fn check(s: &St, m: &M) -> Result<(), String> {
    let mut v = s.value();
    exactly(&observe(&v), m, "value")?;
    exactly(&observe_mut(&mut v), m, "value through mutable access")?;
    let direct = m.to_value();
    ensure!(v == direct, "differs from the same value built directly: {v:?}, {direct:?}");
    ensure_eq!(reflect_eq(&v, &direct), eq(m, m), "reflected equality with the same value built directly");
    ensure_eq!(v.cmp(&direct), std::cmp::Ordering::Equal, "order with the same value built directly");
    ensure_eq!(hash64(&v), hash64(&direct), "hash of the same value built directly");
    let mut s = s.clone();
    if let Some(r) = s.reflect() {
        exactly(&observe(r), m, "content before conversion")?;
        ensure!(r.to_value() == direct, "type erased form");
    }
    Ok(())
}

fn starts() -> Vec<(&'static str, St, M)> {
    vec![
        ("StructValue::new", St::Struct(StructValue::new()), M::Struct(vec![])),
        ("StructValue::with_capacity", St::Struct(StructValue::with_capacity(2)), M::Struct(vec![])),
        ("StructValue::default", St::Struct(StructValue::default()), M::Struct(vec![])),
        ("TupleStructValue::new", St::TupleStruct(TupleStructValue::new()), M::TupleStruct(vec![])),
        ("TupleStructValue::with_capacity", St::TupleStruct(TupleStructValue::with_capacity(2)), M::TupleStruct(vec![])),
        ("TupleValue::new", St::Tuple(TupleValue::new()), M::Tuple(vec![])),
        ("TupleValue::with_capacity", St::Tuple(TupleValue::with_capacity(2)), M::Tuple(vec![])),
        (
            "EnumValue::new_struct_variant",
            St::StructBuilder(EnumValue::new_struct_variant("V")),
            en("V", VK::Struct, &[]),
        ),
        (
            "EnumValue::new_struct_variant_with_capacity",
            St::StructBuilder(EnumValue::new_struct_variant_with_capacity("V", 2)),
            en("V", VK::Struct, &[]),
        ),
        (
            "EnumValue::new_tuple_variant",
            St::TupleBuilder(EnumValue::new_tuple_variant("V")),
            en("V", VK::Tuple, &[]),
        ),
        (
            "EnumValue::new_tuple_variant_with_capacity",
            St::TupleBuilder(EnumValue::new_tuple_variant_with_capacity("V", 2)),
            en("V", VK::Tuple, &[]),
        ),
        (
            "finished struct variant",
            St::Enum(EnumValue::new_struct_variant("V").finish()),
            en("V", VK::Struct, &[]),
        ),
        (
            "finished tuple variant",
            St::Enum(EnumValue::new_tuple_variant("V").finish()),
            en("V", VK::Tuple, &[]),
        ),
        ("unit variant", St::Enum(EnumValue::new_unit_variant("V")), en("V", VK::Unit, &[])),
    ]
}

fn explore(stats: &mut Stats, ops: &[Op], trace: &mut Vec<Op>, s: &St, m: &M, depth: usize) -> Result<(), String> {
    stats.state(m);
    check(s, m).map_err(|e| format!("after {trace:?}: {e}"))?;
    if depth == 0 {
        return Ok(());
    }
    for op in ops {
        trace.push(*op);
        if let Some(next) = apply(s, m, *op) {
            let (s, m) = next.map_err(|e| format!("after {trace:?}: {e}"))?;
            stats.tr(1);
            explore(stats, ops, trace, &s, &m, depth - 1)?;
        }
        trace.pop();
    }
    Ok(())
}

fn run(ctx: &mut Ctx) {
    let depth = ctx.pick(4, 5);
    for (name, s, m) in starts() {
        let named = matches!(m, M::Struct(_) | M::Enum(_, VK::Struct, _));
        let ops = ops(named);
        for first in &ops {
            ctx.unit(&format!("{name} {first:?}"), |ctx| {
                ctx.case(
                    || format!("{name}, then sequences from {first:?}"),
                    |stats| {
                        check(&s, &m)?;
                        let Some(next) = apply(&s, &m, *first) else { return Ok(()) };
                        let (s, m) = next?;
                        explore(stats, &ops, &mut vec![*first], &s, &m, depth - 1)
                    },
                );
            });
        }
    }
    iterators(ctx);
    scalars(ctx);
}

fn iterators(ctx: &mut Ctx) {
    let len = ctx.pick(5, 6);
    // every sequence of (name, value)
    let items: Vec<(usize, usize)> = (0..3).flat_map(|n| (0..2).map(move |v| (n, v))).collect();
    for n in 0..=len {
        ctx.unit(&format!("iterators of {n} items"), |ctx| {
            ctx.case(
                || format!("values from all iterators of {n} items"),
                |stats| {
                    let total = items.len().pow(n as u32);
                    for mut code in 0..total {
                        let mut seq = vec![];
                        for _ in 0..n {
                            seq.push(items[code % items.len()]);
                            code /= items.len();
                        }
                        let mut m = M::Struct(vec![]);
                        let mut t = vec![];
                        for (n, v) in &seq {
                            m_set(&mut m, NAMES[*n], value(*v));
                            t.push(value(*v));
                        }
                        let s: StructValue = seq.iter().map(|(n, v)| (NAMES[*n], value(*v).to_value())).collect();
                        check(&St::Struct(s), &m).map_err(|e| format!("{seq:?}: {e}"))?;
                        let s: TupleValue = t.iter().map(|m| m.to_value()).collect();
                        check(&St::Tuple(s), &M::Tuple(t.clone())).map_err(|e| format!("{seq:?}: {e}"))?;
                        let s: TupleStructValue = t.iter().map(|m| m.to_value()).collect();
                        check(&St::TupleStruct(s), &M::TupleStruct(t.clone())).map_err(|e| format!("{seq:?}: {e}"))?;
                        stats.tr(3);
                    }
                    Ok(())
                },
            );
        });
    }
}

/// Conversions of scalars, and of values, to type erased values.
fn scalars(ctx: &mut Ctx) {
    ctx.unit("conversions", |ctx| {
        for s in super::c09::scalars() {
            ctx.case(
                || format!("conversions of {s:?}"),
                |stats| {
                    let m = M::S(s.clone());
                    macro_rules! conv {
                        ($($v:ident)*) => {
                            match &s {
                                $(S::$v(x) => {
                                    let x = x.clone();
                                    every(stats, x, &m)
                                })*
                                S::F32(x) => every(stats, f32::from_bits(*x), &m),
                                S::F64(x) => every(stats, f64::from_bits(*x), &m),
                                S::Str(x) => {
                                    every(stats, x.clone(), &m)?;
                                    exactly(&observe(&Value::from(x.as_str())), &m, "from &str")
                                }
                            }
                        };
                    }
                    conv!(Usize U8 U16 U32 U64 U128 I8 I16 I32 I64 I128 Bool Char)
                },
            );
        }
    });
}

fn every<X: Clone + Reflect + Into<Value>>(stats: &mut Stats, x: X, m: &M) -> Result<(), String> {
    stats.state(m);
    stats.tr(8);
    exactly(&observe(&x.clone().into()), m, "into a value")?;
    exactly(&observe(&Value::from(&x as &dyn Reflect)), m, "from a reference")?;
    let f = st(&[("a", m.clone())]);
    check(&St::Struct(StructValue::new().with_field("a", x.clone())), &f)?;
    let mut s = StructValue::new();
    s.set_field("a", x.clone());
    check(&St::Struct(s), &f)?;
    check(&St::Struct([("a", x.clone())].into_iter().collect()), &f)?;
    check(&St::Tuple([x.clone()].into_iter().collect()), &M::Tuple(vec![m.clone()]))?;
    check(&St::Tuple(TupleValue::new().with_field(x.clone())), &M::Tuple(vec![m.clone()]))?;
    check(&St::TupleStruct(TupleStructValue::new().with_field(x.clone())), &M::TupleStruct(vec![m.clone()]))?;
    check(
        &St::Enum(EnumValue::new_tuple_variant("V").with_tuple_field(x.clone()).finish()),
        &en("V", VK::Tuple, &[("", m.clone())]),
    )?;
    check(
        &St::Enum(EnumValue::new_struct_variant("V").with_struct_field("a", x).finish()),
        &en("V", VK::Struct, &[("a", m.clone())]),
    )
}
