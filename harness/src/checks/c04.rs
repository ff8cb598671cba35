use super::*;

pub const CHECK: Check = Check {
    id: "C04",
    run,
    bounds: "every list and map type of the universe and type erased lists and maps, starting from up to 3 contents: all sequences of 3 (thorough 4) operations over an alphabet of pushes, inserts (convertible and inconvertible arguments), pops, removals, in place changes; the whole content read back after every operation",
    extra: None,
};

/// An argument: content and how it is presented.
struct Arg {
    m: M,
    r: Box<dyn Reflect>,
}

#[derive(Clone, Debug)]
enum Op {
    Push(usize),
    Pop,
    Remove(usize),
    /// change the element at the index
    Set(usize),
    /// change the nth element when iterating
    SetIter(usize),
    Insert(usize, usize),
    RemoveKey(usize),
    /// change the value of the key
    SetKey(usize),
}

fn typed(m: &M, pool: &[Box<dyn Obj>]) -> Option<Box<dyn Reflect>> {
    pool.iter().find(|o| o.m() == *m).map(|o| o.boxed())
}

fn distinct(ms: Vec<M>, n: usize) -> Vec<M> {
    let mut out: Vec<M> = vec![];
    for m in ms {
        if out.len() < n && !out.iter().any(|o| o.value_eq(&m)) {
            out.push(m);
        }
    }
    out
}

/// Arguments for a parameter of type `t`: some that fit, typed and type erased, and some that don't.
fn args(t: &T, fitting: Vec<M>, typed_of: &dyn Fn(&M) -> Option<Box<dyn Reflect>>, n: usize, bad: usize) -> Vec<Arg> {
    let mut out = vec![];
    for (i, m) in distinct(fitting, n).into_iter().enumerate() {
        match typed_of(&m) {
            Some(r) if i % 2 == 0 => out.push(Arg { m, r }),
            _ => out.push(Arg { r: Box::new(m.to_value()), m: m.erased() }),
        }
    }
    let mut left = bad;
    for m in valid_erased(super::c03::foreign()) {
        if left > 0 && conv(t, &m) == R::No {
            out.push(Arg { r: Box::new(m.to_value()), m });
            left -= 1;
        }
    }
    out
}

fn fits(t: &T, m: &M) -> Option<M> {
    match conv(t, m) {
        R::Yes(m) => Some(m),
        R::No => None,
        R::Unspec => panic!("unspecified argument"),
    }
}

fn observe_opt(r: &Option<Box<dyn Reflect>>) -> Option<M> {
    r.as_ref().map(|b| observe(&**b))
}

fn returned(got: Option<Box<dyn Reflect>>, expected: Option<M>, what: &str) -> Result<(), String> {
    let got = observe_opt(&got);
    match (&got, &expected) {
        (Some(a), Some(b)) if a.same(b) => Ok(()),
        (None, None) => Ok(()),
        _ => Err(format!("{what} returned {got:?}, expected {expected:?}")),
    }
}

fn apply_list(
    r: &mut dyn Reflect,
    model: &mut Vec<M>,
    op: &Op,
    elem: &T,
    vals: &[Arg],
) -> Result<(), String> {
    let l = r.as_list_mut().ok_or("not a list")?;
    match op {
        Op::Push(i) => {
            l.push(&*vals[*i].r);
            if let Some(m) = fits(elem, &vals[*i].m) {
                model.push(m);
            }
        }
        Op::Pop => returned(l.pop(), model.pop(), "pop")?,
        Op::Remove(i) => {
            let e = if *i < model.len() { Some(model.remove(*i)) } else { None };
            returned(l.try_remove(*i), e, "try_remove")?;
        }
        Op::Set(i) => match (l.get_mut(*i), model.get_mut(*i)) {
            (None, None) => {}
            (Some(r), Some(m)) => {
                exactly(&observe(r), m, "element for changing")?;
                if let Some(new) = poke(r, m) {
                    *m = new;
                }
            }
            (a, b) => return Err(format!("get_mut({i}) found {:?}, expected {b:?}", a.is_some())),
        },
        Op::SetIter(i) => {
            let len = model.len();
            ensure_eq!(l.iter_mut().count(), len, "elements when iterating mutably");
            if let (Some(r), Some(m)) = (l.iter_mut().nth(*i), model.get_mut(*i)) {
                if let Some(new) = poke(r, m) {
                    *m = new;
                }
            }
        }
        _ => unreachable!(),
    }
    Ok(())
}

fn check_list(r: &dyn Reflect, model: &[M]) -> Result<usize, String> {
    exactly(&observe(r), &M::List(model.to_vec()), "content")?;
    let l = r.as_list().ok_or("not a list")?;
    ensure_eq!(l.len(), model.len(), "len");
    ensure_eq!(l.is_empty(), model.is_empty(), "is_empty");
    for i in (0..model.len()).chain(past(model.len())) {
        match (l.get(i), model.get(i)) {
            (None, None) => {}
            (Some(r), Some(m)) => exactly(&observe(r), m, "element")?,
            (a, b) => return Err(format!("get({i}) found {:?}, expected {b:?}", a.is_some())),
        }
    }
    Ok(model.len() + 5)
}

fn find(entries: &[(M, M)], key: &M) -> Option<usize> {
    entries.iter().position(|(k, _)| k.value_eq(key))
}

fn apply_map(
    r: &mut dyn Reflect,
    model: &mut Vec<(M, M)>,
    op: &Op,
    (kt, vt): (&T, &T),
    keys: &[Arg],
    vals: &[Arg],
) -> Result<(), String> {
    let l = r.as_map_mut().ok_or("not a map")?;
    match op {
        Op::Insert(k, v) => {
            let got = l.insert(&*keys[*k].r, &*vals[*v].r);
            let expected = match (fits(kt, &keys[*k].m), fits(vt, &vals[*v].m)) {
                (Some(k), Some(v)) => match find(model, &k) {
                    Some(i) => Some(std::mem::replace(&mut model[i].1, v)),
                    None => {
                        model.push((k, v));
                        None
                    }
                },
                _ => None,
            };
            returned(got, expected, "insert")?;
        }
        Op::RemoveKey(k) => {
            let got = l.remove(&*keys[*k].r);
            let expected = fits(kt, &keys[*k].m)
                .and_then(|k| find(model, &k))
                .map(|i| model.remove(i).1);
            returned(got, expected, "remove")?;
        }
        Op::SetKey(k) => {
            let i = fits(kt, &keys[*k].m).and_then(|k| find(model, &k));
            match (l.get_mut(&*keys[*k].r), i) {
                (None, None) => {}
                (Some(r), Some(i)) => {
                    same(&observe(r), &model[i].1, "value for changing")?;
                    let shown = observe(r);
                    if let Some(new) = poke(r, &shown) {
                        model[i].1 = new;
                    }
                }
                (a, b) => return Err(format!("get_mut of key {k} found {:?}, expected entry {b:?}", a.is_some())),
            }
        }
        Op::SetIter(n) => {
            ensure_eq!(l.iter_mut().count(), model.len(), "entries when iterating mutably");
            if let Some((k, r)) = l.iter_mut().nth(*n) {
                let i = find(model, &observe(k)).ok_or("key of no entry when iterating mutably")?;
                let shown = observe(r);
                same(&shown, &model[i].1, "value when iterating mutably")?;
                if let Some(new) = poke(r, &shown) {
                    model[i].1 = new;
                }
            }
        }
        _ => unreachable!(),
    }
    Ok(())
}

fn check_map(r: &dyn Reflect, model: &[(M, M)], kt: &T, keys: &[Arg]) -> Result<usize, String> {
    same(&observe(r), &M::Map(model.to_vec()), "content")?;
    let l = r.as_map().ok_or("not a map")?;
    ensure_eq!(l.len(), model.len(), "len");
    ensure_eq!(l.is_empty(), model.is_empty(), "is_empty");
    for a in keys {
        let i = fits(kt, &a.m).and_then(|k| find(model, &k));
        match (l.get(&*a.r), i) {
            (None, None) => {}
            (Some(r), Some(i)) => same(&observe(r), &model[i].1, "value")?,
            (g, i) => return Err(format!("get({:?}) found {:?}, expected entry {i:?}", a.m, g.is_some())),
        }
    }
    for (k, v) in l.iter() {
        let by = l.get(k).ok_or("key shown by iterating not found")?;
        ensure_eq!(addr(by), addr(v), "value by key and by iterating");
    }
    Ok(model.len() + keys.len() + 3)
}

fn sequences(ops: usize, depth: usize) -> usize {
    ops.pow(depth as u32)
}

fn run(ctx: &mut Ctx) {
    let depth = ctx.pick(3, 4);
    let mut tys = universe();
    tys.push(ty::<mirror_mirror::Value>());
    for (n, ty) in tys.iter().enumerate() {
        let t = (ty.t)();
        let erased = n + 1 == tys.len();
        if !erased && !matches!(t, T::List { .. } | T::Map { .. }) {
            continue;
        }
        ctx.unit(ty.name, |ctx| {
            let vals = (ty.vals)(40, 3);
            let mut starts: Vec<&Box<dyn Obj>> = vec![];
            for o in &vals {
                let m = o.m();
                if matches!(m, M::List(_) | M::Map(_))
                    && starts.iter().filter(|s| s.m().kind() == m.kind()).count() < 3
                {
                    starts.push(o);
                }
            }
            // and long ones, where other operations matter
            let long = (ty.long)();
            let long: Vec<_> = long.iter().filter(|o| matches!(o.m(), M::List(_) | M::Map(_))).collect();
            for (start, short) in starts.into_iter().map(|s| (s, true)).chain(long.into_iter().map(|s| (s, false))) {
                let depth = if short { depth } else { depth - 1 };
                match start.m() {
                    M::List(content) => {
                        let elem = match &t {
                            T::List { elem, .. } => elem(),
                            _ => T::Dyn(DynKind::Value),
                        };
                        let pool: Vec<M> = vals
                            .iter()
                            .filter_map(|v| match v.m() {
                                M::List(l) => Some(l),
                                _ => None,
                            })
                            .flatten()
                            .collect();
                        let typed = |m: &M| {
                            vals.iter().find_map(|v| {
                                let l = v.r().as_list()?;
                                let got = l.iter().find(|e| observe(*e) == *m).map(|e| e.clone_reflect());
                                got
                            })
                        };
                        let vals = args(&elem, pool, &typed, 3, 2);
                        let mut ops: Vec<Op> = (0..vals.len()).map(Op::Push).collect();
                        ops.extend([Op::Pop, Op::Remove(0), Op::Remove(1), Op::Remove(3), Op::Remove(1 << 32), Op::Remove(usize::MAX)]);
                        ops.extend([Op::Set(0), Op::Set(1), Op::Set(2), Op::SetIter(0), Op::SetIter(1)]);
                        if !short {
                            let n = content.len();
                            ops = vec![Op::Push(0), Op::Pop];
                            for i in [0, 1, n / 2, n - 2, n - 1, n, 255, 256, 257] {
                                ops.push(Op::Remove(i));
                                ops.push(Op::Set(i));
                            }
                            ops.extend([Op::Remove(1 << 32), Op::SetIter(n - 1)]);
                        }
                        for mut i in 0..sequences(ops.len(), depth) {
                            let seq: Vec<Op> = (0..depth)
                                .map(|_| {
                                    let o = ops[i % ops.len()].clone();
                                    i /= ops.len();
                                    o
                                })
                                .collect();
                            ctx.case(
                                || format!("{content:?}: {seq:?}"),
                                |st| {
                                    let mut y = start.dup();
                                    let mut model = content.clone();
                                    for op in &seq {
                                        apply_list(y.rm(), &mut model, op, &elem, &vals)
                                            .map_err(|e| format!("{op:?}: {e}"))?;
                                        let n = check_list(y.r(), &model).map_err(|e| format!("after {op:?}: {e}"))?;
                                        st.tr(n + 1);
                                        st.state(&(ty.name, &model));
                                    }
                                    exactly(&y.m(), &M::List(model), "underlying value")
                                },
                            );
                        }
                    }
                    M::Map(content) => {
                        let (kt, vt) = match &t {
                            T::Map { key, value, .. } => (key(), value()),
                            _ => (T::Dyn(DynKind::Value), T::Dyn(DynKind::Value)),
                        };
                        let pool: Vec<(M, M)> = vals
                            .iter()
                            .filter_map(|v| match v.m() {
                                M::Map(l) => Some(l),
                                _ => None,
                            })
                            .flatten()
                            .collect();
                        let typed_key = |m: &M| {
                            vals.iter().find_map(|v| {
                                let l = v.r().as_map()?;
                                let got = l.iter().find(|e| observe(e.0) == *m).map(|e| e.0.clone_reflect());
                                got
                            })
                        };
                        let typed_val = |m: &M| {
                            vals.iter().find_map(|v| {
                                let l = v.r().as_map()?;
                                let got = l.iter().find(|e| observe(e.1) == *m).map(|e| e.1.clone_reflect());
                                got
                            })
                        };
                        let fitting = if short {
                            pool.iter().map(|p| p.0.clone()).collect()
                        } else {
                            [0, content.len() / 2, content.len() - 1].map(|i| content[i].0.clone()).into()
                        };
                        let keys = args(&kt, fitting, &typed_key, 3, 1);
                        let vals = args(&vt, pool.iter().map(|p| p.1.clone()).collect(), &typed_val, 2, 1);
                        let mut ops: Vec<Op> = vec![];
                        for k in 0..keys.len() {
                            for v in 0..vals.len() {
                                ops.push(Op::Insert(k, v));
                            }
                            ops.push(Op::RemoveKey(k));
                            ops.push(Op::SetKey(k));
                        }
                        ops.extend([Op::SetIter(0), Op::SetIter(1)]);
                        for mut i in 0..sequences(ops.len(), depth) {
                            let seq: Vec<Op> = (0..depth)
                                .map(|_| {
                                    let o = ops[i % ops.len()].clone();
                                    i /= ops.len();
                                    o
                                })
                                .collect();
                            ctx.case(
                                || format!("{content:?}: {seq:?}"),
                                |st| {
                                    let mut y = start.dup();
                                    let mut model = content.clone();
                                    for op in &seq {
                                        apply_map(y.rm(), &mut model, op, (&kt, &vt), &keys, &vals)
                                            .map_err(|e| format!("{op:?}: {e}"))?;
                                        let n = check_map(y.r(), &model, &kt, &keys).map_err(|e| format!("after {op:?}: {e}"))?;
                                        st.tr(n + 1);
                                        st.state(&(ty.name, M::Map(model.clone()).canon()));
                                    }
                                    same(&y.m(), &M::Map(model), "underlying value")
                                },
                            );
                        }
                    }
                    _ => unreachable!(),
                }
            }
        });
    }
}
