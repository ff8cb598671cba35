use super::*;
use mirror_mirror::try_visit::{try_visit, TryVisit};
use mirror_mirror::type_info::*;

pub const CHECK: Check = Check {
    id: "C14",
    run,
    bounds: "every type of the universe, up to 10 (thorough 600) values of depth 3 (5) each, and long (33 and 257 parts) and deep (33 levels) ones; the visitor failing at every call it gets, and never",
    extra: None,
};

#[derive(Default)]
struct Recorder {
    calls: Vec<Visit>,
    fail_at: Option<usize>,
    addrs: Vec<usize>,
}

impl Recorder {
    fn call(&mut self, v: Visit) -> Result<(), usize> {
        let i = self.calls.len();
        self.calls.push(v);
        match self.fail_at {
            Some(at) if at == i => Err(1000 + i),
            _ => Ok(()),
        }
    }
}

macro_rules! scalars {
    ($($f:ident $t:ty, $x:ident => $e:expr;)*) => {
        impl TryVisit for Recorder {
            type Error = usize;
            $(fn $f(&mut self, $x: $t) -> Result<(), usize> {
                self.call(Visit::Scalar($e))
            })*
            fn try_visit_opaque(&mut self, value: &dyn Reflect, ty: OpaqueType<'_>) -> Result<(), usize> {
                let name = ty.type_name();
                // the description outlives the visit
                let name: &'static str = Box::leak(name.to_owned().into_boxed_str());
                self.addrs.push(addr(value));
                self.call(Visit::Opaque(name, observe(value)))
            }
        }
    };
}

scalars! {
    try_visit_usize usize, x => S::Usize(x);
    try_visit_u8 u8, x => S::U8(x);
    try_visit_u16 u16, x => S::U16(x);
    try_visit_u32 u32, x => S::U32(x);
    try_visit_u64 u64, x => S::U64(x);
    try_visit_u128 u128, x => S::U128(x);
    try_visit_i8 i8, x => S::I8(x);
    try_visit_i16 i16, x => S::I16(x);
    try_visit_i32 i32, x => S::I32(x);
    try_visit_i64 i64, x => S::I64(x);
    try_visit_i128 i128, x => S::I128(x);
    try_visit_bool bool, x => S::Bool(x);
    try_visit_char char, x => S::Char(x);
    try_visit_f32 f32, x => S::F32(x.to_bits());
    try_visit_f64 f64, x => S::F64(x.to_bits());
    try_visit_string &String, x => S::Str(x.clone());
}

/// A visitor that handles nothing itself.
struct Nothing;
impl TryVisit for Nothing {
    type Error = ();
}

fn check(st: &mut Stats, r: &dyn Reflect, ty: Type<'_>, expected: &[Visit]) -> Result<(), String> {
    let mut v = Recorder::default();
    ensure_eq!(try_visit(&mut v, r, ty), Ok(()), "result");
    ensure_eq!(v.calls, expected, "calls");
    let all = v.addrs.clone();
    st.tr(expected.len());
    for i in 0..expected.len() {
        let mut v = Recorder { fail_at: Some(i), ..Default::default() };
        ensure_eq!(try_visit(&mut v, r, ty), Err(1000 + i), "result with a failure at call {i}");
        ensure_eq!(v.calls, expected[..=i], "calls with a failure at call {i}");
        ensure!(all.starts_with(&v.addrs), "opaque parts with a failure at call {i}");
        st.tr(i + 1);
    }
    // failures past the end never happen
    let mut v = Recorder { fail_at: Some(expected.len()), ..Default::default() };
    ensure_eq!(try_visit(&mut v, r, ty), Ok(()), "result without a failure");
    ensure_eq!(try_visit(&mut Nothing, r, ty), Ok(()), "result with a visitor that handles nothing");
    Ok(())
}

fn run(ctx: &mut Ctx) {
    let (n, d) = (ctx.pick(10, 600), ctx.pick(3, 5));
    for ty in universe() {
        ctx.unit(ty.name, |ctx| {
            for x in ty.all(n, d) {
                ctx.case(
                    || format!("visiting {:?}", x.m()),
                    |st| {
                        let t = (ty.t)();
                        let m = x.m();
                        let mut expected = vec![];
                        visits(&t, &m, &mut expected);
                        st.state(&(ty.name, m.clone()));
                        let d = (ty.desc)();
                        check(st, x.r(), d.get_type(), &expected)?;
                        check(st, &*x.boxed_boxed(), d.get_type(), &expected)?;
                        check(st, x.r(), x.r().type_descriptor().get_type(), &expected)?;
                        check(st, &*x.r().clone_reflect(), d.get_type(), &expected)?;
                        same(&x.m(), &m, "the value after the visits")
                    },
                );
            }
        });
    }
}
