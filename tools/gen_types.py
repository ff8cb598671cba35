#!/usr/bin/env python3
"""Generates harness/src/types_gen.rs: the derived types that are explored, each with its model."""
import itertools, os, sys

OUT = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'harness', 'src', 'types_gen.rs')
out = []
registry = []   # rust types, as written in `ty::<..>()`


def w(s=''):
    out.append(s)


class F:
    """a field; ty is a Rust type, hid a skipped field"""

    def __init__(self, name, ty, skip=False, with_=None, meta=(), docs=()):
        self.name, self.ty, self.skip = name, ty, skip
        self.with_, self.meta, self.docs = with_, list(meta), list(docs)


class Var:
    def __init__(self, name, kind, fields=(), skip=False, meta=(), docs=(), rec=False):
        self.name, self.kind, self.fields, self.skip = name, kind, list(fields), skip
        self.meta, self.docs, self.rec = list(meta), list(docs), rec


def attr(parts):
    return f'#[reflect({", ".join(parts)})] ' if parts else ''


def meta_attr(meta):
    return [f'meta({", ".join(f"{k} = {e}" for k, e, _ in meta)})'] if meta else []


def docs_src(docs, ind):
    return ''.join(f'{ind}///{d}\n' for d in docs)


def both_src(docs, parts, ind):
    """Docs and reflect attribute. Longer docs go around the attribute, in all forms they have."""
    a = attr(parts).strip()
    if len(docs) < 4:
        return docs_src(docs, ind) + (f'{ind}{a}\n' if a else '')
    k = len(docs) // 2
    mid = f'{ind}#[doc = {rstr(docs[k])}]\n'
    return docs_src(docs[:k], ind) + (f'{ind}{a}\n' if a else '') + mid + f'{ind}#[allow(dead_code)]\n' + docs_src(docs[k + 1:], ind)


def field_src(f, named, ind):
    parts = []
    if f.skip:
        parts.append('skip')
    if f.with_:
        parts.append(f'from_reflect_with({f.with_})')
    parts += meta_attr(f.meta)
    s = both_src(f.docs, parts, ind) + ind if len(f.docs) > 3 else docs_src(f.docs, ind) + ind + attr(parts)
    return s + (f'pub {f.name}: {f.ty},\n' if named == 'pub' else f'{f.name}: {f.ty},\n' if named else
                (f'pub {f.ty},\n' if named is None else f'{f.ty},\n'))


def rstr(s):
    return '"' + s.replace('\\', '\\\\').replace('"', '\\"') + '"'


def meta_model(meta):
    return 'vec![' + ', '.join(f'("{k}", || {v})' for k, _, v in meta) + ']'


def docs_model(docs):
    return 'vec![' + ', '.join(rstr(d) for d in docs) + ']'


def field_model(f):
    name = f'Some("{f.name}")' if f.name is not None else 'None'
    wi = f'Some({f.with_}_m)' if f.with_ else 'None'
    return (f'FieldT {{ name: {name}, ty: <{f.ty} as Modeled>::t, with: {wi}, '
            f'meta: {meta_model(f.meta)}, docs: {docs_model(f.docs)} }}')


def shown(fields):
    return [f for f in fields if not f.skip]


def emit(kind, name, fields=(), variants=(), opt_out=(), meta=(), docs=(), generics='', params='',
         where='', extra_derives=(), insts=None, mod=None, ord_=False, crate_attr=None, default_clone=True, deep=None):
    """kind: struct | tuple | unit | enum.  generics: `<T: Modeled>` for impls, params: `<T>`"""
    fields, variants = list(fields), list(variants)
    if kind in ('tuple',):
        for f in fields:
            f.name = None
    for v in variants:
        if v.kind == 'tuple':
            for f in v.fields:
                f.name = None
    derives = ['Reflect']
    if 'Clone' not in opt_out:
        derives.append('Clone')
    if 'Debug' not in opt_out:
        derives.append('Debug')
    if ord_:
        derives += ['PartialEq', 'Eq', 'PartialOrd', 'Ord']
    derives += extra_derives
    w('#[allow(dead_code)]')
    w(docs_src(docs, '').rstrip('\n')) if docs and len(docs) < 4 else None
    w(f'#[derive({", ".join(derives)})]')
    parts = []
    if opt_out:
        parts.append(f'opt_out({", ".join(opt_out)})')
    parts += meta_attr(meta)
    if len(docs) > 3:
        w(both_src(docs, parts, '').rstrip('\n'))
    elif parts:
        w(attr(parts).strip())
    decl = generics if generics else ''
    if kind == 'unit':
        w(f'pub struct {name}{decl}{where};')
    elif kind == 'struct':
        w(f'pub struct {name}{decl}{where} {{')
        for f in fields:
            w(field_src(f, 'pub', '    ').rstrip('\n'))
        w('}')
    elif kind == 'tuple':
        w(f'pub struct {name}{decl}(')
        for f in fields:
            w(field_src(f, None, '    ').rstrip('\n'))
        w(f'){where};')
    else:
        w(f'pub enum {name}{decl}{where} {{')
        for v in variants:
            parts = (['skip'] if v.skip else []) + meta_attr(v.meta)
            if len(v.docs) > 3:
                w(both_src(v.docs, parts, '    ').rstrip('\n'))
                parts = []
            elif v.docs:
                w(docs_src(v.docs, '    ').rstrip('\n'))
            if parts:
                w('    ' + attr(parts).strip())
            if v.kind == 'unit':
                w(f'    {v.name},')
            elif v.kind == 'tuple':
                w(f'    {v.name}(')
                for f in v.fields:
                    w(field_src(f, False, '        ').rstrip('\n'))
                w('    ),')
            else:
                w(f'    {v.name} {{')
                for f in v.fields:
                    w(field_src(f, True, '        ').rstrip('\n'))
                w('    },')
        w('}')
    self_ty = name + params
    if 'FromReflect' in opt_out:
        # a hand written reader, as the documentation asks for
        w(f'impl{generics} FromReflect for {self_ty}{where} {{')
        w('    fn from_reflect(reflect: &dyn Reflect) -> Option<Self> {')
        if kind == 'struct':
            w('        let s = reflect.as_struct()?;')
            w('        let _ = s;')
            w('        Some(Self {')
            for f in fields:
                w(f'            {f.name}: ' + ('Hid::default(),' if f.skip else f'FromReflect::from_reflect(s.field("{f.name}")?)?,'))
            w('        })')
        elif kind == 'tuple':
            w('        let s = reflect.as_tuple_struct()?;')
            w('        let _ = s;')
            i = 0
            args = []
            for f in fields:
                if f.skip:
                    args.append('Hid::default()')
                else:
                    args.append(f'FromReflect::from_reflect(s.field_at({i})?)?')
                    i += 1
            w(f'        Some(Self({", ".join(args)}))')
        elif kind == 'unit':
            w('        reflect.as_struct()?; Some(Self)')
        else:
            w('        let e = reflect.as_enum()?;')
            w('        match e.variant_name() {')
            for v in variants:
                if v.skip:
                    continue
                if v.kind == 'unit':
                    w(f'            "{v.name}" => Some(Self::{v.name}),')
                elif v.kind == 'struct':
                    a = ', '.join(f'{f.name}: ' + ('Hid::default()' if f.skip else f'FromReflect::from_reflect(e.field("{f.name}")?)?') for f in v.fields)
                    w(f'            "{v.name}" => Some(Self::{v.name} {{ {a} }}),')
                else:
                    args, i = [], 0
                    for f in v.fields:
                        if f.skip:
                            args.append('Hid::default()')
                        else:
                            args.append(f'FromReflect::from_reflect(e.field_at({i})?)?')
                            i += 1
                    w(f'            "{v.name}" => Some(Self::{v.name}({", ".join(args)})),')
            w('            _ => None,')
            w('        }')
        w('    }')
        w('}')

    # the model
    w('#[allow(unused_variables, unused_mut, clippy::all)]')
    w(f'impl{generics} Modeled for {self_ty}{where} {{')
    w('    fn t() -> T {')
    common = f'meta: {meta_model(meta)}, docs: {docs_model(docs)}'
    if kind in ('struct', 'unit', 'tuple'):
        tk = 'TupleStruct' if kind == 'tuple' else 'Struct'
        fs = ', '.join(field_model(f) for f in shown(fields))
        w(f'        T::{tk} {{ name: std::any::type_name::<Self>(), fields: vec![{fs}], {common} }}')
    else:
        vs = []
        for v in variants:
            if v.skip:
                continue
            fs = ', '.join(field_model(f) for f in shown(v.fields))
            vs.append(f'VariantT {{ name: "{v.name}", kind: VK::{v.kind.capitalize()}, fields: vec![{fs}], meta: {meta_model(v.meta)}, docs: {docs_model(v.docs)} }}')
        sk = ', '.join(f'"{v.name}"' for v in variants if v.skip)
        w(f'        T::Enum {{ name: std::any::type_name::<Self>(), variants: vec![{", ".join(vs)}], skipped: vec![{sk}], {common} }}')
    w('    }')
    # m
    w('    fn m(&self) -> M {')
    if kind in ('struct', 'unit'):
        w('        M::Struct(vec![' + ', '.join(f'("{f.name}".to_owned(), self.{f.name}.m())' for f in shown(fields)) + '])')
    elif kind == 'tuple':
        w('        M::TupleStruct(vec![' + ', '.join(f'self.{i}.m()' for i, f in enumerate(fields) if not f.skip) + '])')
    else:
        w('        match self {')
        for v in variants:
            if v.kind == 'unit':
                w(f'            Self::{v.name} => M::Enum("{v.name}".into(), VK::Unit, vec![]),')
            elif v.kind == 'tuple':
                pats = ', '.join(f'x{i}' for i in range(len(v.fields)))
                fs = ', '.join(f'(None, x{i}.m())' for i, f in enumerate(v.fields) if not f.skip)
                if v.skip:
                    fs = ''
                w(f'            Self::{v.name}({pats}) => M::Enum("{v.name}".into(), VK::Tuple, vec![{fs}]),')
            else:
                pats = ', '.join(f'{f.name}: x{i}' for i, f in enumerate(v.fields))
                fs = ', '.join(f'(Some("{f.name}".into()), x{i}.m())' for i, f in enumerate(v.fields) if not f.skip)
                if v.skip:
                    fs = ''
                w(f'            Self::{v.name} {{ {pats} }} => M::Enum("{v.name}".into(), VK::Struct, vec![{fs}]),')
        if not variants:
            w('            _ => unreachable!(),')
        w('        }')
    w('    }')
    # hidden
    w('    fn hidden(&self) -> Vec<u8> {')
    if kind in ('struct', 'unit'):
        w('        vec![' + ', '.join(f'self.{f.name}.0' for f in fields if f.skip) + ']')
    elif kind == 'tuple':
        w('        vec![' + ', '.join(f'self.{i}.0' for i, f in enumerate(fields) if f.skip) + ']')
    else:
        w('        match self {')
        for v in variants:
            if v.skip or not any(f.skip for f in v.fields):
                continue
            if v.kind == 'tuple':
                pats = ', '.join(f'x{i}' for i in range(len(v.fields)))
                w(f'            Self::{v.name}({pats}) => vec![' + ', '.join(f'x{i}.0' for i, f in enumerate(v.fields) if f.skip) + '],')
            elif v.kind == 'struct':
                pats = ', '.join(f'{f.name}: x{i}' for i, f in enumerate(v.fields))
                w(f'            Self::{v.name} {{ {pats} }} => vec![' + ', '.join(f'x{i}.0' for i, f in enumerate(v.fields) if f.skip) + '],')
        w('            _ => vec![],')
        w('        }')
    w('    }')
    # vals
    w('    fn vals(n: usize, d: usize) -> Vec<Self> {')

    def build(prefix, fs, named, dexpr):
        lines = []
        lens = []
        for i, f in enumerate(fs):
            if not f.skip:
                lines.append(f'let l{i} = <{f.ty} as Modeled>::vals(wide(n, 4), {dexpr});')
                lens.append(f'l{i}.len()')
        k = 0
        args = []
        for i, f in enumerate(fs):
            if f.skip:
                e = f'Hid({i + 1})'
            else:
                e = f'l{i}[c[{k}]].dup()'
                k += 1
            args.append(f'{f.name}: {e}' if named else e)
        ctor = f'{prefix} {{ {", ".join(args)} }}' if named else f'{prefix}({", ".join(args)})'
        return ' '.join(lines) + f' combos(&[{", ".join(lens)}], n.max(1)).into_iter().map(|c: Vec<usize>| {ctor}).collect::<Vec<Self>>()'

    if kind == 'unit':
        w('        vec![Self]')
    elif kind == 'struct':
        w('        ' + build('Self', fields, True, 'd.saturating_sub(1)'))
    elif kind == 'tuple':
        w('        ' + build('Self', fields, False, 'd.saturating_sub(1)'))
    else:
        w('        let mut per: Vec<Vec<Self>> = vec![];')
        for v in variants:
            if v.skip:
                continue
            body = (f'vec![Self::{v.name}]' if v.kind == 'unit' else
                    '{ ' + build(f'Self::{v.name}', v.fields, v.kind == 'struct', 'd.saturating_sub(1)') + ' }')
            if v.rec:
                w(f'        if d > 0 {{ per.push({body}); }}')
            else:
                w(f'        per.push({body});')
        w('        interleave(per, n)')
    w('    }')
    w('    fn into_v(self) -> Option<Value> { Some(self.into()) }')
    if deep:
        w(f'    fn vals_long() -> Vec<Self> {{ {deep} }}')
    # dup
    w('    fn dup(&self) -> Self {')

    def dup(e, f):
        return f'Hid({e}.0)' if f.skip else f'{e}.dup()'
    if kind == 'unit':
        w('        Self')
    elif kind == 'struct':
        w('        Self { ' + ', '.join(f'{f.name}: ' + dup(f'self.{f.name}', f) for f in fields) + ' }')
    elif kind == 'tuple':
        w('        Self(' + ', '.join(dup(f'self.{i}', f) for i, f in enumerate(fields)) + ')')
    else:
        w('        match self {')
        for v in variants:
            if v.kind == 'unit':
                w(f'            Self::{v.name} => Self::{v.name},')
            elif v.kind == 'tuple':
                pats = ', '.join(f'x{i}' for i in range(len(v.fields)))
                w(f'            Self::{v.name}({pats}) => Self::{v.name}(' + ', '.join(dup(f'x{i}', f) for i, f in enumerate(v.fields)) + '),')
            else:
                pats = ', '.join(f'{f.name}: x{i}' for i, f in enumerate(v.fields))
                w(f'            Self::{v.name} {{ {pats} }} => Self::{v.name} {{ ' + ', '.join(f'{f.name}: ' + dup(f'x{i}', f) for i, f in enumerate(v.fields)) + ' },')
        if not variants:
            w('            _ => unreachable!(),')
        w('        }')
    w('    }')
    w("    fn dfmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {")
    if 'Debug' not in opt_out:
        w('        std::fmt::Debug::fmt(self, f)')
    elif kind in ('struct', 'unit'):
        w('        f.debug_struct(std::any::type_name::<Self>())' + ''.join(f'.field("{f.name}", &Dbg(&self.{f.name}))' for f in shown(fields)) + '.finish()')
    elif kind == 'tuple':
        w('        f.debug_tuple(std::any::type_name::<Self>())' + ''.join(f'.field(&Dbg(&self.{i}))' for i, f in enumerate(fields) if not f.skip) + '.finish()')
    else:
        w('        match self {')
        for v in variants:
            if v.kind == 'unit':
                w(f'            Self::{v.name} => f.write_str("{v.name}"),')
            elif v.kind == 'tuple':
                pats = ', '.join(f'x{i}' for i in range(len(v.fields)))
                w(f'            Self::{v.name}({pats}) => f.debug_tuple("{v.name}")' + ''.join(f'.field(&Dbg(x{i}))' for i, f in enumerate(v.fields) if not f.skip and not v.skip) + '.finish(),')
            else:
                pats = ', '.join(f'{f.name}: x{i}' for i, f in enumerate(v.fields))
                w(f'            Self::{v.name} {{ {pats} }} => f.debug_struct("{v.name}")' + ''.join(f'.field("{f.name}", &Dbg(x{i}))' for i, f in enumerate(v.fields) if not f.skip and not v.skip) + '.finish(),')
        if not variants:
            w('            _ => unreachable!(),')
        w('        }')
    w('    }')
    w('}')
    w()
    if insts is None:
        if not generics:
            reg(name, mod)
    else:
        for i in insts:
            reg(i, mod)


def reg(name, mod=None):
    registry.append((mod + '::' if mod else '') + name)


w('// Generated by tools/gen_types.py. Do not edit.')
w('use crate::model::*;')
w('use crate::universe::*;')
w('use mirror_mirror::{Enum, FromReflect, Reflect, Struct, TupleStruct, Value};')
w('use std::collections::BTreeMap;')
w('use std::num::*;')
w('use std::time::Duration;')
w('#[allow(unused_imports)] use std::ops::*;')
w()
w('fn interleave<X>(mut per: Vec<Vec<X>>, n: usize) -> Vec<X> {')
w('    let mut out = vec![];')
w('    let mut its: Vec<_> = per.drain(..).map(|v| v.into_iter()).collect();')
w('    loop {')
w('        let before = out.len();')
w('        for it in &mut its { out.extend(it.next()); }')
w('        if out.len() == before || out.len() >= n.max(its.len()) { break; }')
w('    }')
w('    out')
w('}')
w()

TYS = ['i32', 'String', 'bool']
NAMES = ['a', 'b', 'c']


def fs(n, mask, tys=TYS, names=NAMES):
    return [F(names[i], 'Hid' if mask >> i & 1 else tys[i], skip=bool(mask >> i & 1)) for i in range(n)]


# 1. shapes: every number of fields up to 3, every set of skipped fields
for n in range(4):
    for mask in range(2 ** n):
        emit('struct', f'S{n}m{mask}', fs(n, mask), ord_=True)
        emit('tuple', f'T{n}m{mask}', fs(n, mask), ord_=True)
        emit('enum', f'E{n}m{mask}', variants=[
            Var('A', 'unit'),
            Var('B', 'struct', fs(n, mask)),
            Var('C', 'tuple', fs(n, mask)),
        ], ord_=True)
emit('unit', 'Unit', ord_=True)

# fields of equal type, so that mixing them up shows only in the values
for mask in (0, 1, 2, 4, 5, 9):
    emit('struct', f'SameS{mask}', fs(4, mask, ['u8'] * 4, ['p', 'q', 'r', 's']))
    emit('tuple', f'SameT{mask}', fs(4, mask, ['u8'] * 4, ['p', 'q', 'r', 's']))
    emit('enum', f'SameE{mask}', variants=[
        Var('V', 'struct', fs(4, mask, ['u8'] * 4, ['p', 'q', 'r', 's'])),
        Var('W', 'tuple', fs(4, mask, ['u8'] * 4, ['p', 'q', 'r', 's'])),
    ])

# names in every order
for n_, names in enumerate(itertools.permutations(['m', 'n', 'a_longer'])):
    emit('struct', f'Perm{n_}', [F(names[0], 'u8'), F(names[1], 'u16'), F(names[2], 'u8')])
    emit('enum', f'PermE{n_}', variants=[
        Var(['Z', 'Y', 'X'][n_ % 3], 'struct', [F(names[0], 'u8'), F(names[1], 'u16'), F(names[2], 'u8')]),
        Var('W', 'struct', [F(names[2], 'u8'), F(names[0], 'u8')]),
        Var('A', 'unit'),
    ])

# many fields and variants
WIDE_NAMES = ['l', 'k', 'aa', 'j', 'i2', 'i10', 'b', 'c', 'h', 'g', 'f', 'e', 'd', 'a', 'zz', 'z', 'm', 'yy', 'y', 'n']
WIDE_TYS = ['u8', 'String', 'i32', 'u8', 'bool', 'u8', 'Option<u8>', 'u16', 'u8', 'Vec<u8>', 'u8']
def wide(n, skip=()):
    return [F(WIDE_NAMES[i], 'Hid' if i in skip else WIDE_TYS[i % len(WIDE_TYS)], skip=i in skip) for i in range(n)]
for n_, skip in ((20, ()), (12, (0, 5, 10, 11))):
    emit('struct', f'Wide{n_}', wide(n_, skip))
    emit('tuple', f'WideT{n_}', wide(n_, skip))
    emit('enum', f'WideE{n_}', variants=[
        Var(WIDE_NAMES[i].upper() + 'v', ['unit', 'struct', 'tuple'][i % 3], wide(i, skip) if i % 3 else []) for i in range(n_)
    ] + [Var('WholeS', 'struct', wide(n_, skip)), Var('WholeT', 'tuple', wide(n_, skip))])

# 2. skipped variants at every position
for mask in range(8):
    if mask == 7:
        continue
    emit('enum', f'SkipV{mask}', variants=[
        Var('A', 'unit', skip=bool(mask & 1)),
        Var('B', 'struct', [F('x', 'i32'), F('y', 'String')], skip=bool(mask & 2)),
        Var('C', 'tuple', [F(None, 'i32'), F(None, 'String')], skip=bool(mask & 4)),
    ])
emit('enum', 'SkipFirst', variants=[
    Var('A', 'tuple', [F(None, 'Hid', skip=True)], skip=True),
    Var('B', 'unit'),
    Var('C', 'struct', [F('h', 'Hid', skip=True), F('x', 'u8')]),
    Var('D', 'unit', skip=True),
    Var('E', 'tuple', [F(None, 'u8'), F(None, 'Hid', skip=True), F(None, 'u8')]),
])
emit('enum', 'Empties', variants=[
    Var('U', 'unit'), Var('T', 'tuple', []), Var('S', 'struct', []),
])
emit('enum', 'OneUnit', variants=[Var('Only', 'unit')], ord_=True)
emit('enum', 'OneTuple', variants=[Var('Only', 'tuple', [F(None, 'u8')])])
emit('enum', 'OneStruct', variants=[Var('Only', 'struct', [F('x', 'u8')])])
emit('enum', 'Units', variants=[Var(n, 'unit') for n in ('Zero', 'One', 'Two', 'Alpha')], ord_=True)
# the same field names in several variants, names of variants that are prefixes of each other
emit('enum', 'Overlap', variants=[
    Var('A', 'struct', [F('x', 'i32'), F('y', 'i32')]),
    Var('Ab', 'struct', [F('y', 'i32'), F('x', 'i32')]),
    Var('Abc', 'struct', [F('x', 'String')]),
    Var('B', 'tuple', [F(None, 'i32'), F(None, 'i32')]),
    Var('Ba', 'tuple', [F(None, 'String')]),
    Var('x', 'unit'),
])

# 3. opting out
OPTS = ['Debug', 'Clone', 'FromReflect']
for r in range(1, 4):
    for c in itertools.combinations(OPTS, r):
        tag = ''.join(o[0] for o in c)
        emit('struct', f'Opt{tag}S', [F('a', 'i32'), F('h', 'Hid', skip=True), F('b', 'Vec<u8>'), F('c', 'NonZeroU8'), F('e', '[u8; 2]')], opt_out=c)
        emit('tuple', f'Opt{tag}T', [F(None, 'Hid', skip=True), F(None, 'String'), F(None, 'Option<u8>'), F(None, 'NonZeroU8')], opt_out=c)
        emit('enum', f'Opt{tag}E', variants=[
            Var('A', 'unit'),
            Var('B', 'tuple', [F(None, 'Hid', skip=True), F(None, 'i32'), F(None, '[u8; 2]')]),
            Var('C', 'struct', [F('h', 'Hid', skip=True), F('x', 'NonZeroU8'), F('y', 'Vec<u8>')]),
        ], opt_out=c)
emit('unit', 'OptUnit', opt_out=('Debug', 'Clone'))
# types that contain opted out types
emit('struct', 'HoldsOpt', [F('a', 'OptCS'), F('b', 'Vec<OptCE>'), F('c', 'Option<OptCT>')], opt_out=('Clone',))
emit('struct', 'HoldsOptD', [F('a', 'OptDS'), F('b', 'Vec<OptDE>'), F('c', 'Option<OptDT>')], opt_out=('Debug',))

# 4. custom readers at every position
for pos in range(3):
    tys = [('i32', 'rd_i32'), ('String', 'rd_str'), ('Vec<u8>', 'rd_bytes')]
    mk = lambda: [F(NAMES[i], tys[i][0], with_=tys[i][1] if i == pos else None) for i in range(3)]
    emit('struct', f'With{pos}S', mk())
    emit('tuple', f'With{pos}T', mk())
    emit('enum', f'With{pos}E', variants=[
        Var('A', 'struct', mk()), Var('B', 'tuple', mk()), Var('C', 'unit'),
    ])
mk = lambda: [F('a', 'i32', with_='rd_i32'), F('h', 'Hid', skip=True), F('b', 'i32'), F('c', 'String', with_='rd_str')]
emit('struct', 'WithAllS', mk())
emit('tuple', 'WithAllT', mk())
emit('enum', 'WithAllE', variants=[Var('A', 'struct', mk()), Var('B', 'tuple', mk())])
emit('struct', 'WithCloneS', mk(), opt_out=('Clone',))
emit('tuple', 'WithCloneT', mk(), opt_out=('Clone',))
emit('enum', 'WithCloneE', variants=[Var('A', 'struct', mk()), Var('B', 'tuple', mk())], opt_out=('Clone',))

# 5. names that generated code might use
NASTY = ['name', 'index', 'value', 'fields', 'field', 'enum_', 'struct_', 'tuple_struct', 'tuple', 'variant_matches',
         'new_value', 'new', 'graph', 'iter', 'f', 'reflect', 'other', 'this', 'variants', 'out', 'idx', 'key',
         'r#type', 'field_0', '_0', 'ident', 'meta', 'patch', 'to_value', 'as_any', 'ty', 'result', 'len', 'string']
for i in range(0, len(NASTY), 4):
    names = NASTY[i:i + 4]
    mk = lambda: [F(n, ['String', 'u8', 'i32', 'bool'][j]) for j, n in enumerate(names)]
    emit('struct', f'Nasty{i // 4}S', mk())
    emit('enum', f'Nasty{i // 4}E', variants=[Var('V', 'struct', mk()), Var('W', 'unit')])
    emit('enum', f'Nasty{i // 4}K', variants=[Var('V', 'struct', mk()), Var('W', 'tuple', [F(None, 'u8')])], opt_out=('Clone',))

# 6. generics
emit('struct', 'G', [F('a', 'X'), F('b', 'u8')], generics='<X: Modeled + Clone + std::fmt::Debug>', params='<X>', insts=[])
emit('tuple', 'GT', [F(None, 'u8'), F(None, 'X')], generics='<X: Modeled + Clone + std::fmt::Debug>', params='<X>', insts=[])
emit('enum', 'GE', variants=[Var('A', 'unit'), Var('B', 'tuple', [F(None, 'X'), F(None, 'u8')]), Var('C', 'struct', [F('x', 'X')])],
     generics='<X: Modeled + Clone + std::fmt::Debug>', params='<X>', insts=[])
emit('struct', 'G2', [F('a', 'A'), F('b', 'B'), F('c', 'Vec<A>')], generics='<A, B>', params='<A, B>',
     where=' where A: Modeled + Clone + std::fmt::Debug, B: Modeled + Clone + std::fmt::Debug',
     insts=['G2<u8, String>', 'G2<String, u8>', 'G2<u8, u8>']) if False else None


def emit_where(kind, name, tparams, bounds, **kw):
    """generic type with a where clause"""
    g = '<' + ', '.join(tparams) + '>'
    emit(kind, name, generics=g, params=g, where=' where ' + ', '.join(f'{t}: {bounds}' for t in tparams), **kw)


B = 'Modeled + Clone + std::fmt::Debug'
emit_where('struct', 'G2', ['A', 'B'], B, fields=[F('a', 'A'), F('b', 'B'), F('c', 'Vec<A>')],
           insts=['G2<u8, String>', 'G2<String, u8>', 'G2<u8, u8>', 'G2<G2<u8, String>, bool>'])
emit_where('tuple', 'GT2', ['A', 'B'], B, fields=[F(None, 'A'), F(None, 'Hid', skip=True), F(None, 'B')],
           insts=['GT2<u8, String>', 'GT2<String, u8>', 'GT2<Option<u8>, Vec<u8>>'])
emit_where('enum', 'GE2', ['A', 'B'], B, variants=[Var('L', 'tuple', [F(None, 'A')]), Var('R', 'struct', [F('b', 'B')]), Var('N', 'unit')],
           insts=['GE2<u8, String>', 'GE2<String, u8>', 'GE2<u8, u8>'])
emit('struct', 'GC', [F('a', '[u8; N]'), F('b', 'u8')], generics='<const N: usize>', params='<N>', insts=['GC<0>', 'GC<1>', 'GC<3>'])

# 7. recursive types
emit('struct', 'RList', [F('head', 'u8'), F('tail', 'Option<Box<RList>>')],
     deep='''vec![(0..DEEP).fold(RList { head: 0, tail: None }, |l, i| RList { head: i as u8, tail: Some(Box::new(l)) })]''')
emit('struct', 'RTree', [F('v', 'u8'), F('kids', 'Vec<RTree>')],
     deep='''vec![(0..DEEP).fold(RTree { v: 0, kids: vec![] }, |l, i| RTree { v: i as u8, kids: vec![l] })]''')
emit('struct', 'RMap', [F('kids', 'BTreeMap<u8, RMap>'), F('s', 'String')],
     deep='''vec![(0..DEEP).fold(RMap { kids: BTreeMap::new(), s: String::new() }, |l, i| RMap { kids: [(i as u8, l)].into(), s: i.to_string() })]''')
emit('tuple', 'RTup', [F(None, 'u8'), F(None, 'Option<Box<RTup>>')],
     deep='''vec![(0..DEEP).fold(RTup(0, None), |l, i| RTup(i as u8, Some(Box::new(l))))]''')
emit('tuple', 'RVec', [F(None, 'Vec<RVec>')],
     deep='''vec![(0..DEEP).fold(RVec(vec![]), |l, _| RVec(vec![l]))]''')
emit('enum', 'REnum', variants=[
    Var('Leaf', 'tuple', [F(None, 'i32')]),
    Var('Node', 'tuple', [F(None, 'Box<REnum>'), F(None, 'Box<REnum>')], rec=True),
    Var('Many', 'struct', [F('kids', 'Vec<REnum>')], rec=True),
    Var('Opt', 'tuple', [F(None, 'Option<Box<REnum>>')], rec=True),
],
     deep='''vec![(0..DEEP).fold(REnum::Leaf(1), |l, i| match i % 3 {
        0 => REnum::Node(Box::new(REnum::Leaf(i as i32)), Box::new(l)),
        1 => REnum::Many { kids: vec![l] },
        _ => REnum::Opt(Some(Box::new(l))),
    })]''')
emit('struct', 'MutA', [F('b', 'Vec<MutB>'), F('n', 'u8')])
emit('enum', 'MutB', variants=[Var('None_', 'unit'), Var('A', 'tuple', [F(None, 'Box<MutA>')], rec=True), Var('T', 'struct', [F('t', 'Option<MutC>')], rec=True)])
emit('tuple', 'MutC', [F(None, 'Box<MutB>'), F(None, 'String')])
emit('struct', 'RGen', [F('x', 'X'), F('next', 'Option<Box<RGen<X>>>')], generics=f'<X: {B}>', params='<X>', insts=['RGen<u8>', 'RGen<String>'])

# 8. types with the same name
for m, tys in (('dup_a', ['u8', 'String']), ('dup_b', ['String', 'u8'])):
    w(f'pub mod {m} {{')
    w('use super::*;')
    emit('struct', 'Dup', [F('x', tys[0]), F('y', tys[1])], mod=m)
    emit('enum', 'DupE', variants=[Var('A', 'tuple', [F(None, tys[0])]), Var('B', 'struct', [F('z', tys[1])])], mod=m)
    w('}')
emit('struct', 'DupBoth', [F('a', 'dup_a::Dup'), F('b', 'dup_b::Dup'), F('c', 'Vec<dup_a::DupE>'), F('d', 'Vec<dup_b::DupE>')])

# (also by their full names)
w("""pub trait Here {
    type S;
    type E;
}
pub struct At<const N: usize>;
pub type SameA = <At<0> as Here>::S;
pub type SameB = <At<1> as Here>::S;
pub type SameEA = <At<0> as Here>::E;
pub type SameEB = <At<1> as Here>::E;""")
for n, tys in ((0, ['u8', 'String']), (1, ['String', 'u8'])):
    w('const _: () = {')
    emit('struct', 'Same', [F('x', tys[0]), F('y', tys[1])], insts=[])
    emit('enum', 'SameE', variants=[Var('A', 'tuple', [F(None, tys[0])]), Var('B', 'struct', [F('z', tys[1])])], insts=[])
    w(f'impl Here for At<{n}> {{ type S = Same; type E = SameE; }}')
    w('};')
for n in ['SameA', 'SameB', 'SameEA', 'SameEB']:
    reg(n)
emit('struct', 'SameBoth', [F('a', 'SameA'), F('b', 'SameB'), F('c', 'Vec<SameEA>'), F('d', 'Vec<SameEB>')])
emit('tuple', 'SameDeep', [F(None, 'Option<SameB>'), F(None, '(SameEB, SameEA)'), F(None, 'BTreeMap<u8, SameA>')])

# 9. meta data and docs
MT = {
    'i': ('i', '1', 'Value::from(1_i32)'),
    's': ('s', '"text"', 'Value::from("text")'),
    'v': ('v', 'vec![1_u8, 2]', 'Value::List(vec![Value::u8(1), Value::u8(2)])'),
    'neg': ('neg', '-5_i64', 'Value::i64(-5)'),
    'b': ('b', 'true', 'Value::bool(true)'),
    'e': ('e', 'Units::Two', 'M::Enum("Two".into(), VK::Unit, vec![]).to_value()'),
    'st': ('st', 'S1m0 { a: 3 }', 'M::Struct(vec![("a".into(), M::S(S::I32(3)))]).to_value()'),
    'u': ('type_', '1', 'Value::from(1_i32)'),
    'u2': ('_x', '2', 'Value::from(2_i32)'),
    'u3': ('X', '3', 'Value::from(3_i32)'),
    'u4': ('x', '4', 'Value::from(4_i32)'),
    'u5': ('x1', '5', 'Value::from(5_i32)'),
    'u6': ('a__b_', '6', 'Value::from(6_i32)'),
    'i2': ('i', '2', 'Value::from(2_i32)'),
    'i3': ('i', '3', 'Value::from(3_i32)'),
    'i4': ('i', '4', 'Value::from(4_i32)'),
}
m = lambda *k: [MT[x] for x in k]
emit('struct', 'MetaS', [
    F('a', 'u8', meta=m('i2', 's'), docs=[' field a', ' second line']),
    F('h', 'Hid', skip=True, meta=m('i3'), docs=[' hidden']),
    F('b', 'String', meta=m('v', 'neg')),
    F('c', 'bool', docs=[' field c']),
    F('d', 'MetaE'),
], meta=m('i', 'b', 'st'), docs=[' type docs', '', ' "quoted" \\ third'])
emit('tuple', 'MetaT', [
    F(None, 'u8', meta=m('i2'), docs=[' zero']),
    F(None, 'Hid', skip=True, meta=m('i3'), docs=[' hidden']),
    F(None, 'String', meta=m('s', 'e')),
    F(None, 'bool', docs=[' two', ' more']),
], meta=m('i', 'v'), docs=[' tuple docs'])
emit('enum', 'MetaE', variants=[
    Var('A', 'unit', meta=m('i2'), docs=[' A']),
    Var('H', 'unit', skip=True, meta=m('i3', 's'), docs=[' H']),
    Var('B', 'struct', [F('x', 'u8', meta=m('i3'), docs=[' x']), F('h', 'Hid', skip=True, docs=[' hx']), F('y', 'u8', docs=[' y'])], meta=m('s'), docs=[' B', ' BB']),
    Var('C', 'tuple', [F(None, 'Hid', skip=True, meta=m('i2')), F(None, 'u8', meta=m('i4', 'b'), docs=[' c0']), F(None, 'String')], meta=m('i4')),
    Var('D', 'unit'),
], meta=m('i', 'neg'), docs=[' enum docs'])
emit('struct', 'NoMeta', [F('a', 'u8'), F('b', 'MetaS'), F('c', 'Vec<MetaT>')])
emit('unit', 'MetaU', meta=m('i', 's'), docs=[' unit'])

# unusual keys and docs
DOCS = [' a', '', '', ' a', ' a', '', ' b ', '   indented', '\ttab', ' é \\ "', 'no space', ' * list', ' b ']
UN = ['u', 'u2', 'u3', 'u4', 'u5', 'u6']
emit('struct', 'OddS', [F('a', 'u8', meta=m(*UN), docs=DOCS), F('b', 'u8', docs=DOCS[::-1], meta=m(*UN[::-1]))], meta=m(*UN), docs=DOCS)
emit('tuple', 'OddT', [F(None, 'u8', meta=m(*UN), docs=DOCS), F(None, 'u8', docs=DOCS[1:3])], meta=m(*UN[::-1]), docs=DOCS[::-1])
emit('enum', 'OddE', variants=[
    Var('A', 'unit', meta=m(*UN), docs=DOCS),
    Var('B', 'tuple', [F(None, 'u8', meta=m(*UN), docs=DOCS)], meta=m(*UN[1:]), docs=DOCS[1:]),
    Var('C', 'struct', [F('a', 'u8', meta=m(*UN), docs=DOCS)], meta=m(*UN[2:]), docs=DOCS[2:]),
    Var('D', 'unit', docs=['']),
], meta=m(*UN), docs=DOCS)

# one placement at a time, and all
def placements(items):
    """items: names of places. Yields functions place -> (meta, docs)."""
    for i, it in enumerate(items):
        yield f'{i}m', (lambda x, it=it: (m('i', 's') if x == it else [], []))
        yield f'{i}d', (lambda x, it=it: ([], [f' {it} docs', ' more'] if x == it else []))
        yield f'{i}x', (lambda x, it=it: ([] if x == it else m('i2', 'v'), [] if x == it else [f' {x}']))
    yield 'all', (lambda x: ([('k' + x, f'"{x}"', f'Value::from("{x}")')], [f' {x} docs']))


def mf(name, ty, place, at, **kw):
    me, do = place(at)
    return F(name, ty, meta=me, docs=do, **kw)


for tag, place in placements(['type', 'a', 'h', 'b']):
    me, do = place('type')
    emit('struct', f'PlS{tag}', [mf('a', 'u8', place, 'a'), mf('h', 'Hid', place, 'h', skip=True), mf('b', 'String', place, 'b')], meta=me, docs=do)
    emit('tuple', f'PlT{tag}', [mf('a', 'u8', place, 'a'), mf('h', 'Hid', place, 'h', skip=True), mf('b', 'String', place, 'b')], meta=me, docs=do)
for tag, place in placements(['type', 'A', 'H', 'B', 'bx', 'by', 'C', 'c0', 'c1']):
    me, do = place('type')
    v = lambda name: dict(meta=place(name)[0], docs=place(name)[1])
    emit('enum', f'PlE{tag}', variants=[
        Var('A', 'unit', **v('A')),
        Var('H', 'tuple', [F(None, 'u8')], skip=True, **v('H')),
        Var('B', 'struct', [mf('x', 'u8', place, 'bx'), mf('y', 'String', place, 'by')], **v('B')),
        Var('C', 'tuple', [mf(None, 'u8', place, 'c0'), mf(None, 'String', place, 'c1')], **v('C')),
    ], meta=me, docs=do)

# 10. values of other kinds inside
emit('struct', 'HoldsDyn', [F('v', 'Value'), F('s', 'mirror_mirror::struct_::StructValue'), F('t', 'mirror_mirror::tuple::TupleValue')])
emit('tuple', 'HoldsDynT', [F(None, 'mirror_mirror::enum_::EnumValue'), F(None, 'mirror_mirror::tuple_struct::TupleStructValue'), F(None, 'Vec<Value>')])
emit('enum', 'HoldsDynE', variants=[Var('A', 'tuple', [F(None, 'Value')]), Var('B', 'struct', [F('m', 'BTreeMap<String, Value>')])])
emit('struct', 'HoldsOp', [F('a', 'OpA'), F('b', 'OpB'), F('c', 'Vec<OpA>'), F('d', 'u8')])
emit('tuple', 'HoldsOpT', [F(None, 'OpB'), F(None, 'Option<OpA>')])
emit('enum', 'HoldsOpE', variants=[Var('A', 'tuple', [F(None, 'OpB')]), Var('B', 'struct', [F('x', 'OpA')])])
emit('struct', 'Deep', [F('a', 'S2m0'), F('b', 'Vec<E2m0>'), F('c', 'BTreeMap<u8, T2m0>'), F('d', '(u8, Option<S1m0>)'), F('e', '[Vec<u8>; 2]')])
emit('enum', 'DeepE', variants=[
    Var('A', 'struct', [F('s', 'S2m0'), F('l', 'Vec<Option<u8>>')]),
    Var('B', 'tuple', [F(None, 'Box<E2m0>'), F(None, 'BTreeMap<String, Vec<u8>>')]),
])
emit('struct', 'Wide', [F(f'f{i}', 'u8') for i in range(13)])
emit('tuple', 'WideT', [F(None, 'u8') for i in range(13)])

# std types
SC = 'usize u8 u16 u32 u64 u128 i8 i16 i32 i64 i128 bool char f32 f64 String'.split()
NZ = [f'NonZero{t}' for t in 'Usize U8 U16 U32 U64 U128 I8 I16 I32 I64 I128'.split()]
for t in SC + NZ + ['Duration', 'Value', 'mirror_mirror::struct_::StructValue', 'mirror_mirror::enum_::EnumValue',
                    'mirror_mirror::tuple::TupleValue', 'mirror_mirror::tuple_struct::TupleStructValue',
                    'OpA', 'OpB', 'RangeFull',
                    'std::convert::Infallible']:
    reg(t)
for i in range(17):
    reg('(' + ''.join('u8, ' if j % 3 else 'String, ' for j in range(i)) + ')')
for t in ['Range<u8>', 'RangeFrom<String>', 'RangeTo<u8>', 'RangeToInclusive<i32>', 'Range<Option<u8>>']:
    reg(t)
POOL = ['u8', 'String', 'f32', 'NonZeroU8', 'Duration', 'Option<u8>', 'Vec<u8>', '[u8; 2]', 'BTreeMap<u8, String>',
        '(u8, String)', 'S2m0', 'T2m0', 'E2m0', 'Value', 'Box<u8>', 'OpA', 'S3m2', 'E3m2', 'Unit']
CLONE_DEBUG_NOT = set()
for x in POOL:
    reg(f'Option<{x}>')
    reg(f'Vec<{x}>')
    reg(f'BTreeMap<u8, {x}>')
    reg(f'({x}, u8)')
    reg(f'[{x}; 2]')
    if x != 'Box<u8>':
        reg(f'Box<{x}>')
    reg(f'G<{x}>')
    reg(f'GT<{x}>')
    reg(f'GE<{x}>')
for t in ['[u8; 0]', '[u8; 1]', '[u8; 3]', '[String; 4]', '[NonZeroU8; 0]', '[[u8; 2]; 2]',
          'Result<u8, String>', 'Result<(), Vec<u8>>', 'Result<S2m0, E2m0>', 'Vec<Vec<u8>>', 'Vec<Vec<Option<u8>>>',
          'BTreeMap<String, u8>', 'BTreeMap<(u8, String), u8>', 'BTreeMap<S2m0, u8>', 'BTreeMap<E2m0, u8>', 'BTreeMap<Vec<u8>, u8>',
          'BTreeMap<NonZeroU8, u8>', 'BTreeMap<Option<u8>, String>', 'BTreeMap<bool, [u8; 2]>', 'BTreeMap<Value, Value>',
          'BTreeMap<[u8; 2], u8>', 'BTreeMap<OpA, u8>', '[u8; 40]', '[u8; 300]', '[String; 33]', 'BTreeMap<i8, i8>', 'BTreeMap<Units, u8>', 'BTreeMap<T2m0, ()>', 'BTreeMap<char, BTreeMap<u8, u8>>',
          'Box<Box<u8>>', 'Box<Vec<u8>>', 'Vec<Box<S2m0>>', 'Option<Box<E2m0>>', 'Option<Option<u8>>', 'Vec<OptCS>', 'Vec<OptCE>',
          '[OptCT; 2]', 'Option<OptCS>', 'BTreeMap<u8, OptCE>', 'Vec<SkipFirst>', 'Vec<RTree>', '(RList, u8)', 'Vec<Value>',
          'Box<Value>', 'Box<REnum>', 'Option<std::convert::Infallible>', 'Vec<std::convert::Infallible>']:
    reg(t)

# keys of all kinds of scalars
for t in SC + NZ + ['Duration']:
    if t not in ('f32', 'f64') and f'BTreeMap<{t}, u8>' not in registry:
        reg(f'BTreeMap<{t}, u8>')
reg('BTreeMap<usize, S2m0>')
reg('BTreeMap<usize, Vec<u8>>')
reg('BTreeMap<Value, S2m0>')
reg('Vec<BTreeMap<usize, String>>')
for t in SC:
    reg(f'Vec<{t}>')
    reg(f'Option<{t}>')
    reg(f'[{t}; 2]')
for a, b in zip(SC, SC[5:] + SC[:5]):
    reg(f'({a}, {b})')
    reg(f'Result<{a}, {b}>')

# every kind of part next to every other
KINDS = ['()', 'u8', 'Unit', 'Option<u8>', 'Vec<u8>', '[u8; 2]', 'BTreeMap<u8, u8>', '(u8,)', 'S1m0', 'T1m0', 'Units', 'OpA', 'Value', 'NonZeroI16', '[u8; 0]', 'Box<E1m0>']
for i, a in enumerate(KINDS):
    b, c = KINDS[(i + 3) % len(KINDS)], KINDS[(i + 7) % len(KINDS)]
    emit('struct', f'Kd{i}', [F('a', a), F('b', b), F('c', c)])
    emit('tuple', f'KdT{i}', [F(None, a), F(None, c), F(None, b)])
    emit('enum', f'KdE{i}', variants=[
        Var('A', 'tuple', [F(None, b), F(None, a)]),
        Var('B', 'struct', [F('x', c), F('y', 'u8'), F('z', a)]),
        Var('C', 'tuple', [F(None, a)]),
        Var('D', 'struct', [F('x', a)]),
    ])
    reg(f'({b}, {c}, {a})')
for x in ['()', '(u8,)', '[u8; 0]', 'Units']:
    reg(f'Option<{x}>')
    reg(f'Vec<{x}>')
    reg(f'BTreeMap<u8, {x}>')
    reg(f'BTreeMap<{x}, u8>')
    reg(f'({x}, u8)')
    reg(f'[{x}; 2]')
    reg(f'Box<{x}>')
    reg(f'G<{x}>')
    reg(f'GT<{x}>')
    reg(f'GE<{x}>')

# parts with and without default values
D = {'0': 'NonZeroU8', '1': 'u8'}
for n in (1, 2, 3):
    for mask in itertools.product('01', repeat=n):
        t = ''.join(mask)
        emit('struct', f'Df{t}', [F('abc'[i], D[x]) for i, x in enumerate(mask)])
        emit('tuple', f'DfT{t}', [F(None, D[x]) for x in mask])
        emit('enum', f'DfE{t}', variants=[Var('A', 'tuple', [F(None, D[x]) for x in mask]), Var('B', 'unit')])
        emit('enum', f'DfS{t}', variants=[Var('A', 'struct', [F('abc'[i], D[x]) for i, x in enumerate(mask)]), Var('B', 'unit')])
        reg('(' + ''.join(D[x] + ', ' for x in mask) + ')')
        if n < 3:
            # skipped parts don't count
            emit('struct', f'DfK{t}', [F('abc'[i], D[x] if x == '1' else 'Hid', skip=x == '0') for i, x in enumerate(mask)])
for a in '01':
    reg(f'[{D[a]}; 2]')
    reg(f'Range<{D[a]}>')
    for b in '01':
        reg(f'Result<{D[a]}, {D[b]}>')
emit('enum', 'DfFirstSkipped', variants=[Var('A', 'unit', skip=True), Var('B', 'tuple', [F(None, 'NonZeroU8')]), Var('C', 'unit')])
emit('enum', 'DfFirstSkipped2', variants=[Var('A', 'tuple', [F(None, 'NonZeroU8')], skip=True), Var('B', 'tuple', [F(None, 'u8')]), Var('C', 'unit')])

seen = set()
regs = [r for r in registry if not (r in seen or seen.add(r))]
w('#[rustfmt::skip]')
w('pub fn universe() -> Vec<TyInfo> {')
w('    #[allow(unused_mut)]')
w('    let mut out = vec![')
for r in regs:
    w(f'        ty::<{r}>(),')
w('    ];')
for feature, t in [('glam', 'glam::Vec2'), ('glam', 'glam::Vec3'), ('glam', 'glam::Mat3'), ('macaw', 'macaw::ColorRgba8')]:
    w(f'    #[cfg(feature = "{feature}")]')
    w(f'    out.push(ty::<{t}>());')
w('    out')
w('}')
open(OUT, 'w').write('\n'.join(x for x in out if x is not None) + '\n')
import itertools as _it
FORMS = [('.a', 'Key::named_field("a")'), ('.bc', 'Key::named_field("bc")'), ('.0', 'Key::numbered_field(0)'), ('.12', 'Key::numbered_field(12)'),
         ('[0]', 'Key::get(0)'), ('["x"]', 'Key::get("x")'), ('[n + 1]', 'Key::get(8_u8)'), ('::A', 'Key::variant("A")'), ('."q r"', 'Key::named_field("q r")')]
kp = ['// Generated by tools/gen_types.py. Do not edit.', 'use mirror_mirror::key_path;', 'use mirror_mirror::key_path::{Key, KeyPath};', '',
      '#[rustfmt::skip]', 'pub fn macro_paths() -> Vec<(&\'static str, KeyPath, Vec<Key>)> {', '    let n = 7_u8;', '    vec![']
for ln in range(4):
    for c in _it.product(FORMS, repeat=ln):
        # two numbers in a row are one token, which the macro doesn't take apart
        if any(a[0][1].isdigit() and (b[0][1].isdigit() or b[0][1] == '"') and a[0][0] == b[0][0] == '.' for a, b in zip(c, c[1:])):
            continue
        src = ''.join(x[0] for x in c)
        kp.append(f'        ({rstr(src)}, key_path!({src}), vec![{", ".join(x[1] for x in c)}]),')
kp += ['    ]', '}']
open(OUT.replace('types_gen', 'paths_gen'), 'w').write('\n'.join(kp) + '\n')
print(len(regs), 'types', len(out), 'lines')
