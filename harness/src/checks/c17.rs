use super::*;
use crate::paths_gen::macro_paths;
use mirror_mirror::key_path::{field, get, variant, GetPath, Key, KeyPath, NamedOrNumbered};
use std::collections::hash_map::DefaultHasher;
use std::hash::{Hash, Hasher};

pub const CHECK: Check = Check {
    id: "C17",
    run,
    bounds: "all sequences of up to 4 (thorough 5) keys out of an alphabet of 9, built in 10 ways each; all sequences of up to 5 (6) of 12 operations on one path; all pairs of sequences of up to 2 (3) keys; the macro with all sequences of up to 3 out of 9 kinds of tokens; every part of every value of the universe reached by all splits of its path",
    extra: None,
};

/// A key, without using the library.
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
enum MK {
    Named(&'static str),
    Numbered(usize),
    GetI(i32),
    GetS(&'static str),
    GetU(usize),
    GetB(bool),
    Variant(&'static str),
}

const KEYS: [MK; 9] = [
    MK::Named("a"),
    MK::Named("0"),
    MK::Numbered(0),
    MK::GetI(0),
    MK::GetS("a"),
    MK::Variant("a"),
    MK::GetU(0),
    MK::Numbered(3),
    MK::GetB(true),
];

impl MK {
    fn key(self) -> Key {
        match self {
            MK::Named(n) => Key::Field(NamedOrNumbered::Named(n.to_owned())),
            MK::Numbered(n) => Key::Field(NamedOrNumbered::Numbered(n)),
            MK::GetI(n) => Key::Get(Value::i32(n)),
            MK::GetU(n) => Key::Get(Value::usize(n)),
            MK::GetB(n) => Key::Get(Value::bool(n)),
            MK::GetS(n) => Key::Get(Value::String(n.to_owned())),
            MK::Variant(n) => Key::Variant(n.to_owned()),
        }
    }
    fn text(self) -> String {
        match self {
            MK::Named(n) => format!(".{n}"),
            MK::Numbered(n) => format!(".{n}"),
            MK::GetI(n) => format!("[{n}]"),
            MK::GetU(n) => format!("[{n}]"),
            MK::GetB(n) => format!("[{n}]"),
            MK::GetS(n) => format!("[{n:?}]"),
            MK::Variant(n) => format!("::{n}"),
        }
    }
    fn is(self, k: &Key) -> bool {
        match (self, k) {
            (MK::Named(a), Key::Field(NamedOrNumbered::Named(b))) => a == b,
            (MK::Numbered(a), Key::Field(NamedOrNumbered::Numbered(b))) => a == *b,
            (MK::GetI(a), Key::Get(Value::i32(b))) => a == *b,
            (MK::GetU(a), Key::Get(Value::usize(b))) => a == *b,
            (MK::GetB(a), Key::Get(Value::bool(b))) => a == *b,
            (MK::GetS(a), Key::Get(Value::String(b))) => a == b,
            (MK::Variant(a), Key::Variant(b)) => a == b,
            _ => false,
        }
    }
}

fn hash(p: &impl Hash) -> u64 {
    let mut h = DefaultHasher::new();
    p.hash(&mut h);
    h.finish()
}

fn is(got: &[&Key], s: &[MK]) -> bool {
    got.len() == s.len() && got.iter().zip(s).all(|(g, m)| m.is(g))
}

/// Everything a path shows, against the sequence of keys it should be.
fn check_path(p: &KeyPath, s: &[MK], st: &mut Stats) -> Result<(), String> {
    st.tr(1);
    ensure_eq!(p.len(), s.len(), "len");
    ensure_eq!(p.is_empty(), s.is_empty(), "is_empty");
    let it: Vec<&Key> = p.iter().collect();
    ensure!(is(&it, s), "iter: got {it:?}");
    let it: Vec<&Key> = p.into_iter().collect();
    ensure!(is(&it, s), "into_iter of a reference: got {it:?}");
    let it: Vec<&Key> = p.iter().rev().collect();
    let r: Vec<MK> = s.iter().rev().copied().collect();
    ensure!(is(&it, &r), "iter().rev(): got {it:?}");
    let own: Vec<Key> = p.clone().into_iter().collect();
    ensure!(is(&own.iter().collect::<Vec<_>>(), s), "into_iter: got {own:?}");
    let own: Vec<Key> = p.clone().into_iter().rev().collect();
    ensure!(is(&own.iter().collect::<Vec<_>>(), &r), "into_iter().rev(): got {own:?}");
    let text: String = s.iter().map(|k| k.text()).collect();
    ensure_eq!(p.to_string(), text, "text");
    ensure_eq!(p.iter().map(|k| k.to_string()).collect::<String>(), text, "text of the keys");
    let crumbs: Vec<Vec<&Key>> = p.breadcrumbs().map(|c| c.iter().collect()).collect();
    ensure_eq!(crumbs.len(), s.len(), "number of breadcrumbs");
    for (i, c) in crumbs.iter().enumerate() {
        ensure!(is(c, &s[..i + 1]), "breadcrumb {i}: got {c:?}");
    }
    let model: KeyPath = s.iter().map(|k| k.key()).collect();
    ensure!(*p == model && model == *p, "not equal to the path of the same keys");
    ensure_eq!(hash(p), hash(&model), "hash");
    ensure!(p.clone() == *p, "not equal to its clone");
    Ok(())
}

fn push_method(p: KeyPath, k: MK) -> KeyPath {
    match k {
        MK::Named(n) => p.field(n),
        MK::Numbered(n) => p.field(n),
        MK::GetI(n) => p.get(n),
        MK::GetU(n) => p.get(n),
        MK::GetB(n) => p.get(n),
        MK::GetS(n) => p.get(n),
        MK::Variant(n) => p.variant(n),
    }
}

fn push_in_place(p: &mut KeyPath, k: MK) {
    match k {
        MK::Named(n) => p.push_field(n),
        MK::Numbered(n) => p.push_field(n),
        MK::GetI(n) => p.push_get(n),
        MK::GetU(n) => p.push_get(n),
        MK::GetB(n) => p.push_get(n),
        MK::GetS(n) => p.push_get(n),
        MK::Variant(n) => p.push_variant(n),
    }
}

fn start(k: MK) -> KeyPath {
    match k {
        MK::Named(n) => field(n),
        MK::Numbered(n) => field(n),
        MK::GetI(n) => get(n),
        MK::GetU(n) => get(n),
        MK::GetB(n) => get(n),
        MK::GetS(n) => get(n),
        MK::Variant(n) => variant(n),
    }
}

fn ctor(k: MK) -> Key {
    match k {
        MK::Named(n) => Key::named_field(n),
        MK::Numbered(n) => Key::numbered_field(n),
        MK::GetI(n) => Key::get(n),
        MK::GetU(n) => Key::get(n),
        MK::GetB(n) => Key::get(n),
        MK::GetS(n) => Key::get(n),
        MK::Variant(n) => Key::variant(n),
    }
}

const ROUTES: [(&str, fn(&[MK]) -> KeyPath); 10] = [
    ("methods", |s| s.iter().fold(KeyPath::default(), |p, k| push_method(p, *k))),
    ("methods in place", |s| {
        let mut p = KeyPath::default();
        s.iter().for_each(|k| push_in_place(&mut p, *k));
        p
    }),
    ("push", |s| {
        let mut p = KeyPath::default();
        s.iter().for_each(|k| p.push(k.key()));
        p
    }),
    ("constructors of keys", |s| {
        let mut p = KeyPath::default();
        s.iter().for_each(|k| p.push(ctor(*k)));
        p
    }),
    ("collect", |s| s.iter().map(|k| k.key()).collect()),
    ("extend", |s| {
        let mut p = KeyPath::default();
        p.extend(s.iter().map(|k| k.key()));
        p
    }),
    ("extend by another path", |s| {
        let (a, b) = s.split_at(s.len() / 2);
        let mut p: KeyPath = a.iter().map(|k| k.key()).collect();
        let q: KeyPath = b.iter().map(|k| k.key()).collect();
        p.extend(q);
        p
    }),
    ("from the first key", |s| match s {
        [] => KeyPath::default(),
        [k, rest @ ..] => {
            let mut p = KeyPath::from(k.key());
            p.extend(rest.iter().map(|k| k.key()));
            p
        }
    }),
    ("free functions", |s| match s {
        [] => KeyPath::default(),
        [k, rest @ ..] => rest.iter().fold(start(*k), |p, k| push_method(p, *k)),
    }),
    ("strings", |s| {
        s.iter().enumerate().fold(KeyPath::default(), |p, (i, k)| match *k {
            MK::Named(n) if i % 2 == 0 => p.field(n.to_owned()),
            MK::Named(n) => p.field(&n.to_owned()),
            MK::Variant(n) => p.variant(n.to_owned()),
            MK::GetS(n) => p.get(n.to_owned()),
            k => push_method(p, k),
        })
    }),
];

fn sequences(n: usize) -> Vec<Vec<MK>> {
    let mut out = vec![vec![]];
    let mut last = vec![vec![]];
    for _ in 0..n {
        let mut next = vec![];
        for s in &last {
            for k in KEYS {
                let mut s: Vec<MK> = s.clone();
                s.push(k);
                next.push(s);
            }
        }
        out.extend(next.iter().cloned());
        last = next;
    }
    out
}

fn ops(p: &KeyPath, s: &mut Vec<MK>, depth: usize, st: &mut Stats) -> Result<(), String> {
    st.state(&(&*s, depth));
    check_path(p, s, st).map_err(|e| format!("{s:?}: {e}"))?;
    if depth == 0 {
        return Ok(());
    }
    for k in KEYS {
        let mut q = p.clone();
        push_in_place(&mut q, k);
        s.push(k);
        ops(&q, s, depth - 1, st)?;
        s.pop();
    }
    // pop
    let mut q = p.clone();
    q.pop();
    let last = s.pop();
    ops(&q, s, depth - 1, st)?;
    s.extend(last);
    // extend by itself
    if s.len() <= 4 {
        let mut q = p.clone();
        q.extend(p.clone());
        let n = s.len();
        s.extend_from_within(..);
        ops(&q, s, depth - 1, st)?;
        s.truncate(n);
    }
    // the rest of the path
    if !s.is_empty() {
        let mut it = p.clone().into_iter();
        it.next();
        let q: KeyPath = it.collect();
        let first = s.remove(0);
        ops(&q, s, depth - 1, st)?;
        s.insert(0, first);
    }
    // the last breadcrumb but one
    if s.len() > 1 {
        let q: KeyPath = p.breadcrumbs().nth(s.len() - 2).ok_or("no breadcrumb")?.iter().cloned().collect();
        let last = s.pop();
        ops(&q, s, depth - 1, st)?;
        s.extend(last);
    }
    Ok(())
}

/// The path to a part of a value.
fn path_to(m: &M, idx: &[usize], enter: bool) -> Vec<Key> {
    let mut out = vec![];
    let mut m = m;
    for i in idx {
        match m {
            M::Struct(f) => out.push(Key::named_field(f[*i].0.clone())),
            M::TupleStruct(_) | M::Tuple(_) => out.push(Key::numbered_field(*i)),
            M::Enum(n, _, f) => {
                if enter {
                    out.push(Key::variant(n.clone()));
                }
                match &f[*i].0 {
                    Some(n) => out.push(Key::named_field(n.clone())),
                    None => out.push(Key::numbered_field(*i)),
                }
            }
            M::List(_) | M::Array(_) => out.push(Key::get(*i)),
            M::Map(e) => out.push(Key::Get(e[*i].0.to_value())),
            _ => unreachable!(),
        }
        m = m.children()[*i];
    }
    out
}

fn run(ctx: &mut Ctx) {
    let n = ctx.pick(4, 5);
    for (what, route) in ROUTES {
        ctx.unit(what, |ctx| {
            for s in sequences(n) {
                ctx.case(
                    || format!("{s:?}"),
                    |st| {
                        st.state(&(what, &s));
                        check_path(&route(&s), &s, st)
                    },
                );
            }
        });
    }
    let depth = ctx.pick(5, 6);
    for k in KEYS {
        ctx.unit(&format!("histories from {k:?}"), |ctx| {
            ctx.case(
                || "operations".into(),
                |st| {
                    ops(&start(k), &mut vec![k], depth - 1, st)
                },
            );
        });
    }
    let pairs = sequences(ctx.pick(2, 3));
    for a in sequences(1) {
        ctx.unit(&format!("pairs {a:?}"), |ctx| {
            for s in pairs.iter().filter(|s| s.get(..1).unwrap_or(&[]) == &a[..]) {
                ctx.case(
                    || format!("{s:?} against all others"),
                    |st| {
                        let p = ROUTES[0].1(s);
                        for o in &pairs {
                            let q = ROUTES[2].1(o);
                            ensure_eq!(p == q, s == o, "{p} == {q}");
                            let mut j = p.clone();
                            j.extend(q);
                            let joined: Vec<MK> = s.iter().chain(o).copied().collect();
                            ensure!(is(&j.iter().collect::<Vec<_>>(), &joined), "joined: got {j}");
                            st.tr(2);
                        }
                        st.state(s);
                        Ok(())
                    },
                );
            }
        });
    }
    ctx.unit("macro", |ctx| {
        for (src, p, keys) in macro_paths() {
            ctx.case(
                || format!("key_path!({src})"),
                |st| {
                    st.state(&src);
                    st.tr(1);
                    ensure_eq!(p.iter().cloned().collect::<Vec<_>>(), keys, "keys");
                    let spelled: String = src.replace("\"q r\"", "q r").replace("n + 1", "8");
                    ensure_eq!(p.to_string(), spelled, "text");
                    Ok(())
                },
            );
        }
    });
    // joining and following
    let (vals, d) = (ctx.pick(6, 20), ctx.pick(3, 4));
    for ty in universe() {
        ctx.unit(ty.name, |ctx| {
            for x in (ty.vals)(vals, d) {
                ctx.case(
                    || format!("paths of {:?}", x.m()),
                    |st| {
                        let m = x.m();
                        for idx in parts(&m) {
                            for enter in [false, true] {
                                let mut full = path_to(&m, &idx, enter);
                                full.push(Key::named_field("no such field"));
                                for len in [full.len() - 1, full.len()] {
                                    let keys = &full[..len];
                                    let whole: KeyPath = keys.iter().cloned().collect();
                                    let there = x.r().at(&whole);
                                    for cut in 0..=len {
                                        let a: KeyPath = keys[..cut].iter().cloned().collect();
                                        let b: KeyPath = keys[cut..].iter().cloned().collect();
                                        let mut joined = a.clone();
                                        joined.extend(b.clone());
                                        ensure!(joined == whole, "{a} joined with {b} is {joined}");
                                        let two = x.r().at(&a).and_then(|r| r.at(&b));
                                        ensure_eq!(two.map(addr), there.map(addr), "following {a} and then {b}");
                                        if let (Some(two), Some(there)) = (two, there) {
                                            exactly(&observe(two), &observe(there), "part in two steps")?;
                                        }
                                        let mut y = x.dup();
                                        let two = y.rm().at_mut(&a).and_then(|r| r.at_mut(&b)).map(|r| observe(r));
                                        ensure_eq!(two, there.map(observe), "following {a} and then {b} mutably");
                                        st.tr(2);
                                    }
                                    // breadcrumbs lead to the parts on the way
                                    let mut r = Some(x.r());
                                    for (i, c) in whole.breadcrumbs().enumerate() {
                                        r = r.and_then(|r| r.at(&KeyPath::from(keys[i].clone())));
                                        let c: KeyPath = c.iter().cloned().collect();
                                        ensure_eq!(x.r().at(&c).map(addr), r.map(addr), "breadcrumb {c} of {whole}");
                                    }
                                }
                            }
                        }
                        st.state(&(ty.name, &m));
                        Ok(())
                    },
                );
            }
        });
    }
}
