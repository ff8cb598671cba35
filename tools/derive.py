#!/usr/bin/env python3
"""Decides C23: generates all derived types up to a size, compiles them with warnings as errors, and
compares what each of them does with what was written (derive/checker.rs)."""
import itertools, json, os, re, shutil, subprocess, sys, time

verif = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
out = os.environ.get('MMCHECK_OUT', verif)
tier = sys.argv[1] if len(sys.argv) > 1 else 'quick'
thorough = tier == 'thorough'
start = time.time()
BINS = 8 if not thorough else 48

# type, value, another value
POOL = [
    ('u8', '3u8', '9u8'),
    ('String', '"x".to_owned()', '"yy".to_owned()'),
    ('Vec<u8>', 'vec![1u8, 2]', 'vec![7u8, 8]'),
    ('Option<u8>', 'Some(4u8)', 'Some(5u8)'),
    ('(u8, String)', '(1u8, "t".to_owned())', '(2u8, "u".to_owned())'),
    ('[u8; 2]', '[1u8, 2]', '[3u8, 4]'),
    ('Inner', 'Inner { a: 1, b: None }', 'Inner { a: 2, b: Some("i".to_owned()) }'),
    ('Box<u8>', 'Box::new(6u8)', 'Box::new(7u8)'),
    ('std::collections::BTreeMap<u8, bool>', '[(1u8, true)].into_iter().collect()', '[(1u8, false)].into_iter().collect()'),
]
pool_at = 0


def rust_str(s):
    return json.dumps(s, ensure_ascii=False)


class Field:
    """attrs: a set of skip, with, meta, docs. `ty`: one of POOL, or the same with another name for
    the type in the definition (`shown`)."""

    def __init__(self, name, attrs='', ty=None, shown=None):
        global pool_at
        self.name = name
        self.attrs = attrs.split()
        if 'skip' in self.attrs:
            ty = ('NotReflect', 'NotReflect(7)', None)
        elif 'with' in self.attrs:
            ty = POOL[0]
        elif ty is None:
            ty = POOL[pool_at % len(POOL)]
            pool_at += 1
        self.ty, self.val, self.other = ty
        self.shown = shown or self.ty
        self.meta, self.docs = [], []

    def render(self, i, vis='pub '):
        lines, refl = [], []
        if 'docs' in self.attrs:
            self.docs = [f' Field {i}.', '', ' Done `x`.'] if i % 2 == 0 else [f' Field {i}']
            lines += ['///' + d for d in self.docs]
        if 'skip' in self.attrs:
            refl.append('skip')
        if 'with' in self.attrs:
            refl.append('from_reflect_with(reader)')
        if 'meta' in self.attrs:
            self.meta = [(f'm{i}', f'{i}i32'), ('text', '"abc"')] if i % 2 == 0 else [('list', 'vec![1u8, 2]')]
            refl.append('meta(' + ', '.join(f'{k} = {v}' for k, v in self.meta) + (',' if i % 3 == 0 else '') + ')')
        if refl:
            if i % 2:
                refl.reverse()
            lines.append('#[reflect(' + ', '.join(refl) + (',' if i % 3 == 1 else '') + ')]')
        lines.append(f'{vis}{self.name + ": " if self.name else ""}{self.shown},')
        return '\n'.join('    ' + l for l in lines)

    def skipped(self):
        return 'skip' in self.attrs

    def spec(self):
        name = f'Some(stringify!({self.name}))' if self.name else 'None'
        return (f'Fld {{ name: {name}, ty: std::any::type_name::<{self.ty[4:-1] if self.ty.startswith("Box") else self.ty}>(), '
                f'val: {{ let x: {self.ty} = {self.val}; Reflect::to_value(&x) }}, '
                f'other: {{ let x: {self.ty} = {self.other}; Reflect::to_value(&x) }}, '
                f'with: {"true" if "with" in self.attrs else "false"}, meta: {metas(self.meta)}, docs: {docs(self.docs)} }}')


def metas(m):
    def val(v):
        return f'Value::from({v}.to_owned())' if v.startswith('"') else f'Reflect::to_value(&{v})'
    return 'vec![' + ', '.join(f'("{k}", {val(v)})' for k, v in m) + ']'


def docs(d):
    return 'vec![' + ', '.join(rust_str(x) for x in d) + ']'


class Variant:
    """kind: named, unnamed, unit. attrs as for fields."""

    def __init__(self, name, kind, fields=(), attrs=''):
        self.name, self.kind, self.fields, self.attrs = name, kind, list(fields), attrs.split()
        self.meta, self.docs = [], []

    def body(self, vis):
        fields = '\n'.join(f.render(i, vis) for i, f in enumerate(self.fields))
        if self.kind == 'named':
            return ' {\n' + fields + '\n}' if fields else ' {}'
        if self.kind == 'unnamed':
            return '(\n' + fields + '\n)' if fields else '()'
        return ''

    def render(self, i):
        lines, refl = [], []
        if 'docs' in self.attrs:
            self.docs = [f' Variant {i}.']
            lines += ['///' + d for d in self.docs]
        if 'meta' in self.attrs:
            self.meta = [('v', f'{i}u8'), ('w', '"variant"')]
            refl.append('meta(' + ', '.join(f'{k} = {v}' for k, v in self.meta) + ')')
        if 'skip' in self.attrs:
            refl.append('skip')
        if refl:
            lines.append('#[reflect(' + ', '.join(refl) + ')]')
        return '\n'.join(lines + [self.name + self.body('') + ','])

    def make(self, path):
        if self.kind == 'named':
            return path + ' { ' + ', '.join(f'{f.name}: {f.val}' for f in self.fields) + ' }'
        if self.kind == 'unnamed':
            return path + '(' + ', '.join(f.val for f in self.fields) + ')'
        return path

    def pattern(self, path):
        """Binds the skipped fields."""
        n = [i for i, f in enumerate(self.fields) if f.skipped()]
        if self.kind == 'named':
            return path + ' { ' + ''.join(f'{self.fields[i].name}: s{i}_, ' for i in n) + '.. }', n
        if self.kind == 'unnamed':
            return path + '(' + ', '.join(f's{i}_' if i in n else '_' for i in range(len(self.fields))) + ')', n
        return path, n

    def spec(self, path, cast):
        fields = ', '.join(f.spec() for f in self.fields if not f.skipped())
        kind = {'named': 'Named', 'unnamed': 'Unnamed', 'unit': 'Unit'}[self.kind]
        skips = ', '.join('7' for f in self.fields if f.skipped())
        return (f'Var {{ name: stringify!({self.name}), kind: mmderive::checker::Kind::{kind}, fields: vec![{fields}], meta: {metas(self.meta)}, docs: {docs(self.docs)}, '
                f'make: || {{ let x: {cast} = {self.make(path)}; Box::new(x) }}, into: || {{ let x: {cast} = {self.make(path)}; Value::from(x) }}, skips: vec![{skips}] }}')


mods = []


def emit(kind, vs, name='Ty', opt_out=(), attrs='', crate=None, generics='', where='', args='', vis='pub ', manual=False,
         fvis='pub ', extra='', before='', in_fn=False):
    """kind: struct or enum. vs: list of variants, one for structs."""
    i = len(mods)
    attrs = attrs.split()
    lines, refl, tmeta, tdocs = [], [], [], []
    if 'docs' in attrs:
        tdocs = [' The type.', '', '     indented']
        lines += ['///' + d for d in tdocs]
    derives = ['Reflect'] + [d for d in ['Clone', 'Debug'] if d not in opt_out]
    lines.append(f'#[derive({", ".join(derives)})]')
    if opt_out:
        refl.append(f'opt_out({", ".join(opt_out)}{"," if i % 2 else ""})')
    if 'meta' in attrs:
        tmeta = [('b', '"type meta"'), ('a', '1u64'), ('c', 'Inner { a: 1, b: None }')]
        refl.append('meta(' + ', '.join(f'{k} = {v}' for k, v in tmeta) + ')')
    if crate:
        refl.append(f'crate_name({crate})')
    if refl:
        k = i % len(refl)
        lines.append('#[reflect(' + ', '.join(refl[k:] + refl[:k]) + (',' if i % 3 == 0 else '') + ')]')
    if extra:
        lines.append(extra)
    if kind == 'struct':
        v = vs[0]
        end = '' if v.kind == 'named' else ';'
        w = f' where {where}' if where else ''
        if v.kind == 'named':
            lines.append(f'{vis}struct {name}{generics}{w}{v.body(fvis)}{end}')
        else:
            lines.append(f'{vis}struct {name}{generics}{v.body(fvis)}{w}{end}')
    else:
        w = f' where {where}' if where else ''
        lines.append(f'{vis}enum {name}{generics}{w} {{\n' + '\n'.join('    ' + v.render(j) for j, v in enumerate(vs)) + '\n}')
    conc = f'{name}{args}'
    kept = [v for v in vs if 'skip' not in v.attrs]
    turbo = name + ('::' + args if args else '')
    path = (lambda v: turbo) if kind == 'struct' else (lambda v: f'{turbo}::{v.name}')
    from_ = 'Derived'
    if 'FromReflect' in opt_out:
        from_ = 'Manual' if manual else 'None'
    if manual:
        lines.append(f'impl FromReflect for {conc} {{\n    fn from_reflect(_: &dyn Reflect) -> Option<Self> {{\n        Some({kept[0].make(path(kept[0]))})\n    }}\n}}')
    specs = ',\n            '.join(v.spec(path(v), conc) for v in kept)
    arms = ''
    for v in vs:
        p, n = v.pattern(path(v))
        arms += f'            {p} => vec![{", ".join(f"s{k}_.0" for k in n)}],\n'
    if not vs:
        arms = '            _ => unreachable!(),\n'
    body = f'''{before}
{chr(10).join(lines)}

fn skips_(x: &dyn Any) -> Vec<u32> {{
    match x.downcast_ref::<{conc}>().unwrap() {{
{arms}    }}
}}

{'fn ops_' if in_fn else 'pub fn ops_'}() -> (Spec, Ops) {{
    (
        Spec {{ is_enum: {'true' if kind == 'enum' else 'false'}, meta: {metas(tmeta)}, docs: {docs(tdocs)}, no_clone: {'true' if 'Clone' in opt_out else 'false'}, from: How::{from_}, vars: vec![
            {specs}
        ] }},
        Ops {{ name: std::any::type_name::<{conc}>(), desc: desc::<{conc}>, skips: skips_, from: {'None' if from_ == 'None' else f'Some(from::<{conc}>)'}, debug: {'None' if 'Debug' in opt_out else f'Some(debug::<{conc}>)'} }},
    )
}}'''
    if in_fn:
        body = f'pub fn ops_() -> (Spec, Ops) {{\n{body}\nops_()\n}}'
    mods.append((f't{i}', f'{kind} {name} {[(v.name, v.kind, v.attrs, [(f.name, f.attrs) for f in v.fields]) for v in vs]} opt_out {opt_out} {attrs} {crate or ""} {generics} {where}', body))


A = ['', 'skip', 'with', 'meta', 'docs', 'meta docs', 'with meta docs']
A3 = ['', 'skip', 'with']
NAMES = ['a', 'b', 'c', 'd', 'e']


def struct(kind, attrs, **kw):
    fs = [Field(NAMES[i] if kind == 'named' else None, a) for i, a in enumerate(attrs)]
    emit('struct', [Variant('Ty', kind, fs)], **kw)


def form(name, kind, attrs, vattrs=''):
    return Variant(name, kind, [Field(NAMES[i] if kind == 'named' else None, a) for i, a in enumerate(attrs)], vattrs)


# fields with all attributes
struct('unit', [])
for kind in ['named', 'unnamed']:
    for n in range(5 if thorough else 3):
        for attrs in itertools.product(A, repeat=n):
            struct(kind, attrs)
    for n in [5] if thorough else [3]:
        for attrs in itertools.product(A3, repeat=n):
            struct(kind, attrs)

# variants with all attributes
FORMS = [('unit', ())]
for kind in ['named', 'unnamed']:
    for n in range(3):
        FORMS += [(kind, a) for a in itertools.product(A3, repeat=n)]
for va in ['', 'skip', 'meta', 'docs', 'meta docs', 'skip meta docs']:
    for k, a in FORMS:
        # (with another one, since there has to be one to describe)
        emit('enum', ([form('Other', 'unit', ())] if 'skip' in va else []) + [form('Var', k, a, va)])
for a in A:
    for k in ['named', 'unnamed']:
        emit('enum', [form('One', k, [a, '']), form('Two', k, ['skip', a])])
SOME = FORMS
for (k, a), (l, b) in itertools.product(SOME, repeat=2):
    emit('enum', [form('One', k, a), form('Two', l, b)])
if thorough:
    for k in ['named', 'unnamed']:
        for va in ['', 'skip', 'meta docs']:
            for a in list(itertools.product(A, repeat=2)) + list(itertools.product(A3, repeat=3)):
                emit('enum', ([form('Other', 'unit', ())] if 'skip' in va else []) + [form('Var', k, a, va)])
    for three in itertools.product([f for f in FORMS if len(f[1]) < 2], repeat=3):
        emit('enum', [form(n, k, a) for n, (k, a) in zip(['One', 'Two', 'Three'], three)])
for vas in itertools.product(['', 'skip', 'meta docs'], repeat=3):
    if vas.count('skip') < 3:
        emit('enum', [form('One', 'unit', (), vas[0]), form('Two', 'named', ('skip', '') if vas[1] != 'skip' else ('',), vas[1]), form('Three', 'unnamed', ('', 'with'), vas[2])])

# attributes of types
SHAPES = [
    ('struct', lambda: [Variant('Ty', 'unit')]),
    ('struct', lambda: [form('Ty', 'named', ['', 'skip', 'with'])]),
    ('struct', lambda: [form('Ty', 'unnamed', ['', 'skip', 'with'])]),
    ('enum', lambda: [form('One', 'unit', ()), form('Two', 'named', ['', 'skip', 'with']), form('Three', 'unnamed', ['', 'skip', 'with']), form('Four', 'unit', (), 'skip')]),
]
OPT = ['Debug', 'Clone', 'FromReflect']
for opts in itertools.chain.from_iterable(itertools.permutations(OPT, n) if thorough else itertools.combinations(OPT, n) for n in range(4)):
    for attrs in ['', 'meta', 'docs', 'meta docs'] if thorough else ['', 'meta docs']:
        for crate in [None, 'renamed', 'crate::within::again'] if thorough else [None, 'crate::within::again']:
            for kind, vs in SHAPES:
                for manual in [False, True]:
                    # (copying without Clone, and patching an enum, use FromReflect)
                    if manual and 'FromReflect' not in opts or not manual and 'FromReflect' in opts and ('Clone' in opts or kind == 'enum'):
                        continue
                    emit(kind, vs(), opt_out=opts, attrs=attrs, crate=crate, manual=manual)

# generics
GEN = [
    ('<T: FromReflect + DescribeType>', '', 'T', 'u8', '<u8>', ''),
    ('<T>', 'T: FromReflect + DescribeType', 'T', 'u8', '<u8>', ''),
    ('<T: Reflect>', 'T: FromReflect + DescribeType,', 'Vec<T>', 'Vec<u8>', '<u8>', ''),
    ('<T = u8>', 'T: FromReflect + DescribeType', 'T', 'u8', '<u8>', ''),
    ('<T: FromReflect + DescribeType, U>', 'U: FromReflect + DescribeType', '(T, U)', '(u8, String)', '<u8, String>', ''),
    ('<const N: usize>', '', '[u8; N]', '[u8; 2]', '<2>', ''),
    ('<T: FromReflect + DescribeType, const N: usize>', '', '[T; N]', '[u8; 2]', '<u8, 2>', ''),
    ('<T: Tr>', 'T::Assoc: FromReflect + DescribeType', 'T::Assoc', 'u8', '<()>', 'pub trait Tr { type Assoc; }\nimpl Tr for () { type Assoc = u8; }'),
    ('<T: FromReflect + DescribeType + std::fmt::Display>', '', 'Option<T>', 'Option<u8>', '<u8>', ''),
]
BYTY = {p[0]: p for p in POOL}
for gen, where, shown, conc, args, before in GEN:
    for opts in [(), ('Debug',), ('Clone',), ('Clone', 'Debug'), ('FromReflect',)]:
        # what Clone and Debug ask for
        # (tuples always ask for them)
        bounds = [b for b in ['Clone', 'std::fmt::Debug'] if b.split('::')[-1] not in opts or '(' in shown]
        w = where.rstrip(',')
        params = re.findall(r'\b([TU])\b(?=[:>, =])', gen)
        for p in dict.fromkeys(params):
            if bounds:
                w += (', ' if w else '') + f'{p}: ' + ' + '.join(bounds)
        if 'Tr' in gen and bounds:
            w += ', T::Assoc: ' + ' + '.join(bounds)
        if 'Tr' in gen:
            w += ', T: \'static'
        for shape in ['named', 'unnamed', 'enum']:
            if shape == 'enum' and opts == ('FromReflect',):
                continue
            for a in ['', 'meta docs'] if thorough else ['']:
                # (a parameter can also be in a skipped field only)
                f = lambda n, a=a: Field(n, a, BYTY[conc], shown)
                if shape == 'enum':
                    vs = [Variant('One', 'unnamed', [f(None), Field(None, 'skip')]), Variant('Two', 'named', [Field('x', 'with'), f('y')]), Variant('Three', 'unit')]
                else:
                    vs = [Variant('Ty', shape, [f('x' if shape == 'named' else None), Field('y' if shape == 'named' else None, 'skip')])]
                emit('enum' if shape == 'enum' else 'struct', vs, opt_out=opts, generics=gen, where=w, args=args, before=before)

# names
src = ''
macros = '/repo/crates/mirror-mirror-macros/src'
for d, _, files in sorted(os.walk(macros)):
    for f in sorted(files):
        src += open(os.path.join(d, f)).read()
src = re.sub(r'//.*', '', src)
KEYWORDS = set('as async await break const continue crate dyn else enum extern false fn for if impl in let loop match mod move mut pub ref return self Self static struct super trait true type unsafe use where while abstract become box do final macro override priv typeof unsized virtual yield try gen'.split())
# a fixed set, so that what's explored doesn't depend on how the code is written; those in the code come on top
FIXED = set('''value field fields fields_len field_at field_mut name index this other graph f fmt s x n i len iter key data info map id node
    variant variant_name variant_kind variants tuple structs out new result ret self_ item ident kind debug clone patch to_value from_reflect
    get get_mut into inner len_ name_at other_value enum_ struct_ tuple_struct list array reflect this_ that lhs rhs a b c ctx output input
    field_0 field_1 field0 field1 _0 _1 __0 __field __value _self r#type r#match r#fn r#struct r#enum r#dyn r#mod r#use r#ref r#for camelCase'''.split())
IN_CODE = {w for w in re.findall(r'\b[a-z_][a-z_0-9]*\b', src) if w not in KEYWORDS and w != '_' and not re.fullmatch(r'[a-f0-9_]*[0-9][a-f0-9_]*', w)}
words = sorted(FIXED | IN_CODE)
emit('struct', [Variant('Ty', 'named', [Field(w) for w in words])], extra='#[allow(non_snake_case)]')
emit('struct', [Variant('Ty', 'named', [Field(w, A3[i % 3]) for i, w in enumerate(words)])], extra='#[allow(non_snake_case)]')
emit('enum', [Variant(f'V{i}', 'named', [Field(w)]) for i, w in enumerate(words)], extra='#[allow(non_snake_case)]')
emit('enum', [Variant('One', 'named', [Field(w, A3[i % 3]) for i, w in enumerate(words)]), Variant('Two', 'named', [Field(w) for i, w in enumerate(words)])], extra='#[allow(non_snake_case)]')
for i in range(0, len(words), 1 if thorough else 6):
    # (so that a name is also seen without the others)
    emit('enum', [Variant('One', 'named', [Field(words[i]), Field('zz', 'skip')]), Variant('Two', 'unnamed', [Field(None)])], opt_out=('Debug',) if i % 2 else (), extra='#[allow(non_snake_case)]')
TYPES = ['Foo', 'Ty_', 'T', 'U', 'S', 'F', 'N', 'K', 'V', 'R', 'E', 'I', 'This', 'Item', 'Output', 'Error', 'Result', 'Data', 'Field', 'Fields', 'Kind', 'r#Type', 'lower', 'X0', 'Ünicode', 'Self_', 'Ok_', 'Default_', 'Node', 'Iter_', 'Descriptor']
for t in TYPES:
    x = '#[allow(non_camel_case_types)]'
    emit('struct', [form('Ty', 'named', ['', 'skip'])], name=t, extra=x)
    emit('struct', [form('Ty', 'unnamed', ['', 'skip'])], name=t, extra=x)
    emit('enum', [form('Var', 'named', ['', 'skip']), form('Un', 'unnamed', ['', 'with']), form('Unit', 'unit', [])], name=t, extra=x)
VARIANTS = ['None', 'Some', 'Ok', 'Err', 'Struct', 'Tuple', 'Unit', 'Enum', 'Value', 'Reflect', 'Box', 'String', 'Ty', 'T', 'lower', 'r#Raw', 'Any', 'Debug', 'Clone', 'FromReflect', 'VariantField', 'Key', 'Option', 'Vec']
for kinds in [('unit', 'named', 'unnamed'), ('named', 'unnamed', 'unit'), ('unnamed', 'unit', 'named')]:
    emit('enum', [form(v, kinds[i % 3], [] if kinds[i % 3] == 'unit' else ['', 'skip']) for i, v in enumerate(VARIANTS)], extra='#[allow(non_camel_case_types)]')
for v in VARIANTS:
    emit('enum', [form(v, 'unit', [])], extra='#[allow(non_camel_case_types)]')
    emit('enum', [form(v, 'unnamed', ['', 'skip'])], extra='#[allow(non_camel_case_types)]')

# visibility, place, size, other attributes
for vis in ['', 'pub(crate) ', 'pub(super) ', 'pub(in crate) ']:
    for fvis in ['', 'pub ', 'pub(crate) ']:
        for kind in ['named', 'unnamed']:
            emit('struct', [form('Ty', kind, ['', 'skip', 'with'])], vis=vis, fvis=fvis)
        emit('enum', [form('One', 'named', ['', 'skip']), form('Two', 'unnamed', ['', 'skip'])], vis=vis)
for kind, vs in SHAPES:
    emit(kind, vs(), in_fn=True)
    emit(kind, vs(), extra='#[derive(PartialEq)]\n#[allow(clippy::all)]\n#[repr(C)]' if kind == 'struct' else '#[derive(PartialEq)]\n#[allow(clippy::all)]')
    emit(kind, vs(), extra='#[must_use]')
    emit(kind, vs(), extra='#[doc(hidden)]')
    emit(kind, vs(), extra='#[cfg_attr(all(), non_exhaustive)]')
for n in [12, 13, 17, 33]:
    struct_names = [f'f{i}' for i in range(n)]
    emit('struct', [Variant('Ty', 'named', [Field(x, A3[(i // 5) % 3]) for i, x in enumerate(struct_names)])])
    emit('struct', [Variant('Ty', 'unnamed', [Field(None, A3[(i // 5) % 3]) for i, x in enumerate(struct_names)])])
    emit('enum', [Variant(f'V{i}', ['unit', 'named', 'unnamed'][i % 3], [] if i % 3 == 0 else [Field(None if i % 3 == 2 else x, A3[j % 3]) for j, x in enumerate(struct_names[:i])]) for i in range(n)])
emit('enum', [Variant('A', 'unit'), Variant('B', 'unit'), Variant('C', 'unit')], extra='#[repr(u8)]')

# write, build, run
dir = os.path.join(verif, 'target', 'derive', tier)
shutil.rmtree(os.path.join(dir, 'src'), ignore_errors=True)
os.makedirs(os.path.join(dir, 'src', 'bin'))
shutil.copy(os.path.join(verif, 'derive', 'checker.rs'), os.path.join(dir, 'src', 'checker.rs'))
shutil.copy(os.path.join(verif, 'derive', 'Cargo.lock'), os.path.join(dir, 'Cargo.lock'))
shutil.copy(os.path.join(verif, 'derive', 'Cargo.toml'), os.path.join(dir, 'Cargo.toml'))
open(os.path.join(dir, 'src', 'lib.rs'), 'w').write('pub mod checker;\n')
HEAD = '''#![deny(warnings)]
#![allow(dead_code)]
extern crate mirror_mirror as renamed;
mod within {
    pub use mirror_mirror as again;
}
'''
for b in range(BINS):
    part = mods[b::BINS]
    s = HEAD
    for m, what, body in part:
        s += f'\n/// {what}\nmod {m} {{\n#[allow(unused_imports)]\nuse mmderive::checker::*;\n#[allow(unused_imports)]\nuse mirror_mirror::{{DescribeType, FromReflect, Reflect, Value}};\nuse std::any::Any;\n{body}\n}}\n'
    s += '\nfn main() {\n    mmderive::checker::main(vec![\n' + ''.join(f'        ({rust_str(m + ": " + what[:300])}, {m}::ops_ as _),\n' for m, what, _ in part) + '    ]);\n}\n'
    open(os.path.join(dir, 'src', 'bin', f'b{b}.rs'), 'w').write(s)

target = os.path.join(verif, 'target', 'derive', 'target')
env = dict(os.environ, CARGO_TARGET_DIR=target)
r = subprocess.run(['cargo', 'build', '--offline', '--keep-going'], cwd=dir, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
os.makedirs(os.path.join(out, 'replays'), exist_ok=True)
os.makedirs(os.path.join(out, 'evidence'), exist_ok=True)
violations, types, values, n = 0, 0, 0, 0
samples = [m[1][:200] for m in mods[::len(mods) // 8 + 1]]
if r.returncode != 0:
    lib = subprocess.run(['cargo', 'build', '--offline', '-p', 'mirror-mirror'], cwd='/repo', env=dict(os.environ, CARGO_TARGET_DIR=os.path.join(verif, 'target', 'repo')),
                         stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if lib.returncode != 0:
        print(lib.stdout[-3000:])
        print('the code under test does not build')
        sys.exit(2)
    log = os.path.join(out, 'replays', 'C23-build.log')
    open(log, 'w').write(r.stdout)
    # which types it is
    seen = set()
    for m in re.finditer(r'^(error.*)\n\s+--> (src/bin/b\d+\.rs):(\d+)', r.stdout, re.M):
        lines = open(os.path.join(dir, m[2])).read().split('\n')[:int(m[3])]
        what = next((l for l in reversed(lines) if l.startswith('/// ') and re.match(r'/// (struct|enum) ', l)), '?')
        if what not in seen and len(seen) < 5:
            seen.add(what)
            print(f'does not compile without warnings: {what[4:]}\n    {m[1]}')
    if not seen:
        print('\n'.join(l for l in r.stdout.split('\n') if l.startswith('error'))[:1500])
    violations += 1
    print(f'VIOLATION property=C23 replay={log}')
for b in range(BINS):
    exe = os.path.join(target, 'debug', f'b{b}')
    if r.returncode != 0 and not os.path.exists(exe):
        continue
    if r.returncode != 0:
        break
    p = subprocess.run(['timeout', '300', exe], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    lines = p.stdout.strip().split('\n')
    fails = [l for l in lines if l.startswith('FAIL')]
    if p.returncode != 0:
        fails.append(f'FAIL ended with {p.returncode}')
    else:
        j = json.loads(lines[-1])
        types += j['types']
        values += j['values']
        n += j['comparisons']
    if fails:
        path = os.path.join(out, 'replays', f'C23-b{b}.txt')
        open(path, 'w').write('\n'.join(fails) + f'\n\nsource: {dir}/src/bin/b{b}.rs\n')
        print('\n'.join(l[:600] for l in fails[:3]))
        print(f'VIOLATION property=C23 replay={path}')
        violations += 1
wall = time.time() - start
json.dump({
    'property': 'C23', 'tier': tier, 'seed': int(os.environ.get('VERIF_SEED', '1')), 'level': 'model_checking',
    'coverage': {
        'states': types + values, 'transitions': n, 'traces_validated_against_impl': values,
        'programs': len(mods),
        'bounds': f'all structs and tuple structs of up to {4 if thorough else 2} fields with 7 sets of attributes, and of {5 if thorough else 3} with 3; all enums of one variant of up to {3 if thorough else 2} fields with 3 sets of attributes each and 6 of the variant, {"of up to 2 with 7, " if thorough else ""}and pairs of {len(SOME)} forms of variants{", and triples of 9" if thorough else ""}; all subsets of opting out of Debug, Clone and FromReflect, with meta data, docs and renamed crates, for 4 shapes; 9 kinds of generics; {len(words)} field names, {len(TYPES)} type names, {len(VARIANTS)} variant names; visibilities, places, sizes of up to 33, other attributes',
        'samples': samples,
    },
    'wall_s': wall, 'violations': violations,
}, open(os.path.join(out, 'evidence', 'C23.json'), 'w'), indent=1)
print(f'C23 {tier}: {len(mods)} programs, {types} types run, {values} values, {n} comparisons, {violations} violations, {wall:.1f} s')
sys.exit(1 if violations else 0)
