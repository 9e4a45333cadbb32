#!/usr/bin/env python3
"""Writes the Rust type definitions the typed harness is instantiated with:
a fixed part (shapes chosen by hand) and a random part (derived structs and
enums drawn from the given seed).  What each definition means -- JSON names,
which fields are optional -- is computed by the specification from the plain
description emitted next to it, not here."""
import os, random, sys

def rs(s):  # a Rust string literal
    o = '"'
    for c in s:
        if c in '"\\':
            o += '\\' + c
        elif ord(c) < 32 or ord(c) == 127:
            o += '\\u{%x}' % ord(c)
        else:
            o += c
    return o + '"'

out = []
entries = []  # (groups, rust type, can_read, can_write)

def struct(name, fields, generics='', where='', params=(), derive='Serialize, Deserialize', extra='', groups='P10 P12', inst=(), lifetimes=''):
    """fields: (ident, rename or None, type, [attrs])"""
    out.append(f'#[derive({derive})]{extra}\npub struct {name}{generics} {where}{{')
    for f in fields:
        ident, ren, ty = f[:3]
        for a in f[3] if len(f) > 3 else []:
            out.append(f'    {a}')
        if ren is not None:
            out.append(f'    #[serde(rename = {rs(ren)})]')
        out.append(f'    pub {ident}: {ty},')
    out.append('}')
    mg = ''
    targs = ''
    key = rs(name)
    if params:
        names = []
        for p in params:
            if p.startswith('const '):
                names.append(p.split()[1].rstrip(':'))
            elif p.startswith("'"):
                names.append("'static")
            else:
                names.append(p)
        decl = [p if p.startswith('const ') else p + ': Model + \'static' for p in params if not p.startswith("'")]
        mg = '<' + ', '.join(decl) + '>' if decl else ''
        targs = '<' + ', '.join(names) + '>'
        key = '&format!("%s<%s>", %s)' % (name, ','.join('{}' for p in params if not p.startswith("'")),
              ', '.join(('%s' % p.split()[1].rstrip(':')) if p.startswith('const ') else p + '::desc().json()' for p in params if not p.startswith("'"))) if decl else rs(name)
    def st(ty):
        return ty.replace("'a ", "'static ").replace("'a>", "'static>").replace("'a,", "'static,")
    mw = ('where Self: Sized, ' + where[len('where'):].strip()) if where.strip() else ''
    out.append(f'impl{mg} Model for {name}{targs} {mw} {{')
    out.append(f'    fn desc() -> Term {{ env({key}, || tag("struct", vec![Term::L(vec![')
    for f in fields:
        ident, ren, ty = f[:3]
        r = f'Term::L(vec![])' if ren is None else f'Term::L(vec![bytes({rs(ren)}.as_bytes())])'
        out.append(f'        Term::L(vec![bytes({rs(ident)}.as_bytes()), {r}, <{st(ty)} as Model>::desc()]),')
    out.append('    ])])) }')
    out.append(f'    fn render(&self, how: How, o: &mut Vec<Term>) {{ let _ = how; o.push(tag("st", vec![i({len(fields)})]));')
    for f in fields:
        out.append(f'        self.{f[0]}.render(how, o);')
    out.append('    }')
    out.append(f'    fn arb(r: &mut Rng, size: usize) -> Self {{ let _ = &r; let _z = size.saturating_sub(1); {name} {{')
    for f in fields:
        out.append(f'        {f[0]}: Model::arb(r, _z),')
    out.append('    } }')
    out.append('}')
    for t in (inst or [name + (targs if params else '')]):
        entries.append((groups, t, 'Deserialize' in derive, 'Serialize' in derive.replace('Deserialize', '')))

def enum(name, variants, groups='P11', extra=''):
    out.append(f'#[derive(Serialize, Deserialize)]{extra}\npub enum {name} {{')
    for v in variants:
        if v[1] is not None:
            out.append(f'    #[serde(rename = {rs(v[1])})]')
        out.append(f'    {v[0]}{(" = " + str(v[2])) if len(v) > 2 else ""},')
    out.append('}')
    out.append(f'impl Model for {name} {{')
    out.append(f'    fn desc() -> Term {{ env({rs(name)}, || tag("enum", vec![Term::L(vec![')
    for v in variants:
        r = 'Term::L(vec![])' if v[1] is None else f'Term::L(vec![bytes({rs(v[1])}.as_bytes())])'
        out.append(f'        Term::L(vec![bytes({rs(v[0])}.as_bytes()), {r}]),')
    out.append('    ])])) }')
    out.append('    fn render(&self, _: How, o: &mut Vec<Term>) { let k = match *self {')
    for k, v in enumerate(variants):
        out.append(f'        {name}::{v[0]} => {k + 1},')
    out.append('    }; o.push(tag("e", vec![i(k)])); }')
    out.append(f'    fn arb(r: &mut Rng, _: usize) -> Self {{ match r.below({len(variants)}) {{')
    for k, v in enumerate(variants):
        out.append(f'        {k if k + 1 < len(variants) else "_"} => {name}::{v[0]},')
    out.append('    } }')
    out.append('}')
    entries.append((groups, name, True, True))

def plain(groups, *types):
    for t in types:
        entries.append((groups, t, True, True))
def wonly(groups, *types):
    for t in types:
        entries.append((groups, t, False, True))

# ---------------------------------------------------------------- fixed part
SCALARS = ['i8', 'i16', 'i32', 'i64', 'isize', 'u8', 'u16', 'u32', 'u64', 'usize', 'f32', 'f64', 'bool', '()', 'String']
for t in SCALARS:
    plain('P06', t)
enum('Color', [('Red', None), ('Green', None), ('Blue', None)])
struct('Pair', [('a', None, 'u8'), ('b', None, 'Option<bool>')], groups='P10 P12 P07 P26')

plain('P07', 'Option<u8>', 'Option<i64>', 'Option<bool>', 'Option<()>', 'Option<String>', 'Option<f64>', 'Option<f32>', 'Option<Option<u8>>', 'Option<Option<Option<bool>>>',
      'Box<u8>', 'Box<i64>', 'Box<bool>', 'Box<()>', 'Box<String>', 'Box<f64>', 'Box<Box<u8>>', 'Box<Option<u8>>', 'Option<Box<u8>>', 'Option<Box<Option<Box<i16>>>>', 'Box<Option<Box<Option<String>>>>',
      'Box<Vec<u8>>', 'Option<Vec<u8>>', 'Vec<Option<u8>>', 'Vec<Box<u8>>', 'Option<Vec<Option<bool>>>', 'Box<Vec<Box<bool>>>', 'Box<Box<Vec<Option<Vec<u8>>>>>', 'Option<Box<Vec<Box<Option<u8>>>>>',
      'Box<(u8, Box<bool>)>', 'Option<(Option<u8>, Option<u8>)>', '(Option<u8>, Box<Option<u8>>)', 'Box<[u8; 2]>', 'Option<[Option<u8>; 2]>', '[Box<u8>; 2]', 'Option<[u8; 0]>', 'Box<[u8; 0]>',
      'Box<BTreeMap<String, u8>>', 'Option<BTreeMap<String, Option<u8>>>', 'BTreeMap<String, Box<Option<u8>>>', 'Box<BTreeMap<String, Box<Vec<u8>>>>',
      'Box<Pair>', 'Option<Pair>', 'Option<Box<Pair>>', 'Vec<Option<Pair>>', 'Box<Option<Pair>>', 'Box<Box<Pair>>', 'Box<Color>', 'Option<Color>', 'Option<Box<Color>>', 'Box<Option<Color>>',
      'Box<Value>', 'Option<Value>', 'Option<Box<Value>>', 'Box<Array>', 'Option<Array>', 'Box<Object>', 'Option<Object>', 'Option<Number>', 'Box<Number>', 'Vec<Option<Value>>', 'Box<Option<Box<Array>>>',
      'Box<Vec<Box<Pair>>>', '(Box<Pair>, Option<Pair>)', 'Box<(Box<Vec<u8>>, Box<BTreeMap<String, Box<u8>>>)>', 'Box<Box<Box<Box<Vec<u8>>>>>', 'Option<Option<Vec<u8>>>', 'Option<Option<Pair>>')
plain('P08', 'Vec<u8>', 'Vec<i64>', 'Vec<bool>', 'Vec<()>', 'Vec<String>', 'Vec<f64>', 'Vec<Vec<u8>>', 'Vec<Vec<Vec<bool>>>', 'Vec<Value>', 'Array', 'Vec<Array>', 'Vec<Color>', 'Vec<Pair>',
      '(u8, u8)', '(u8, bool)', '(String, u8)', '(Vec<u8>, Vec<u8>)', '((u8, u8), (u8, u8))', '(u8, (u8, (u8, u8)))', '(Value, Value)', 'Vec<(u8, bool)>', '((), ())', '(Option<u8>, Option<u8>)', '([u8; 1], [u8; 2])',
      '[u8; 0]', '[u8; 1]', '[u8; 2]', '[u8; 3]', '[u8; 4]', '[bool; 5]', '[String; 2]', '[String; 3]', '[u8; 8]', '[u8; 31]', '[u8; 32]', '[u8; 33]', '[u8; 64]', '[u8; 65]', '[u16; 256]', '[u16; 257]', '[String; 33]',
      '[[u8; 2]; 2]', '[[u8; 0]; 2]', '[[u8; 0]; 0]', '[Vec<u8>; 2]', '[Vec<String>; 3]', 'Vec<[u8; 2]>', 'Vec<[String; 2]>', '[(u8, u8); 2]', '[Option<u8>; 3]', '[(); 2]', '[(); 0]', '[Value; 2]', '[[[bool; 1]; 2]; 3]', 'Vec<[u8; 0]>', '[Pair; 2]', '[Color; 3]', '[Box<String>; 2]', '[BTreeMap<String, u8>; 2]')
plain('P09', 'BTreeMap<String, u8>', 'BTreeMap<String, String>', 'BTreeMap<String, Option<u8>>', 'BTreeMap<String, Vec<u8>>', 'BTreeMap<String, BTreeMap<String, u8>>', 'BTreeMap<String, ()>', 'BTreeMap<String, Value>', 'BTreeMap<String, Pair>', 'BTreeMap<String, Color>', 'BTreeMap<String, [u8; 2]>',
      'BTreeMap<i8, u8>', 'BTreeMap<i32, u8>', 'BTreeMap<u8, bool>', 'BTreeMap<u64, u8>', 'BTreeMap<i64, Vec<u8>>', 'BTreeMap<u16, ()>', 'BTreeMap<bool, u8>', 'BTreeMap<char, u8>', 'BTreeMap<Fold, u8>', 'BTreeMap<Fold, Vec<bool>>', 'Object', 'BTreeMap<String, Object>', 'Vec<BTreeMap<u8, u8>>', '(BTreeMap<String, u8>, BTreeMap<u8, String>)')
entries.append(('P09 std', 'HashMap<String, u8>', True, True))
for t in ['HashMap<String, String>', 'HashMap<String, Vec<u8>>', 'HashMap<String, Option<u8>>', 'HashMap<i8, u8>', 'HashMap<i32, bool>', 'HashMap<u64, u8>', 'HashMap<bool, u8>', 'HashMap<char, u8>', 'HashMap<Fold, u8>', 'HashMap<String, HashMap<String, u8>>', 'HashMap<String, u8, Weak>', 'HashMap<i32, Vec<u8>, Weak>', 'Vec<HashMap<String, u8>>', 'Box<HashMap<u8, u8>>', 'HashMap<String, Value>', 'HashMap<String, BTreeMap<String, Pair>>']:
    entries.append(('P09 std', t, True, True))

# structs by hand
struct('Empty', [])
struct('One', [('only', None, 'String')])
struct('OptOnly', [('x', None, 'Option<u8>')])
struct('Deflt', [('a', None, 'Option<u8>'), ('b', None, 'Option<Option<u8>>'), ('c', None, 'Option<Box<u8>>'), ('d', None, 'Option<Vec<u8>>'), ('e', None, 'Option<()>'), ('f', None, 'Option<Value>')])
struct('NoDeflt', [('a', None, 'Box<Option<u8>>'), ('b', None, '()'), ('c', None, 'Vec<u8>'), ('d', None, 'Value')])
struct('NoDeflt2', [('e', None, 'bool'), ('f', None, 'String'), ('g', None, 'BTreeMap<String, u8>'), ('h', None, '[u8; 0]'), ('i', None, 'Array'), ('j', None, 'Object')])
struct('Names', [('r#type', None, 'u8'), ('r#match', 'match!', 'u8'), ('x', 'y', 'u8'), ('y', 'x', 'u8'), ('z', '', 'u8'), ('r#fn', None, 'Option<u8>')])
struct('Esc', [('a', 'quo"te', 'u8'), ('b', 'back\\slash', 'u8'), ('c', 'new\nline', 'u8'), ('d', 'é😀', 'u8'), ('e', '\x01\x1f\x7f', 'Option<u8>'), ('f', ' sp ace ', 'u8'), ('g', 'r#g', 'u8')])
struct('Close', [('a', None, 'u8'), ('aa', None, 'u8'), ('aaa', None, 'Option<u8>'), ('A', None, 'Option<u8>'), ('a_', None, 'Option<u8>'), ('_a', None, 'Option<u8>')])
struct('Locals', [('s', None, 'u8'), ('k', None, 'u8'), ('value', None, 'u8'), ('out', None, 'u8'), ('data', None, 'u8'), ('state', None, 'u8'), ('index', None, 'u8'), ('map', None, 'Option<u8>'), ('key', None, 'Option<u8>')])
struct('Nest', [('p', None, 'Pair'), ('q', None, 'Option<Pair>'), ('v', None, 'Vec<Pair>'), ('b', None, 'Box<Pair>')], groups='P10 P12 P26')
struct('Node', [('v', None, 'u8'), ('next', None, 'Option<Box<Node>>'), ('kids', None, 'Option<Vec<Node>>')], groups='P10 P12 P26')
struct('Attrs', [('a', 'A a', 'u8', ['/// documented', '#[allow(dead_code)]']), ('b', None, 'Option<u8>', ['#[doc = "x"]', '#[deprecated]'])], extra=' #[repr(C)] #[derive(Clone, Debug)]')
struct('G1', [('x', None, 'T'), ('y', None, 'Option<T>')], generics='<T>', params=('T',), inst=('G1<u8>', 'G1<String>', 'G1<Vec<bool>>', 'G1<Pair>', 'G1<Option<u8>>', 'G1<G1<u8>>'))
struct('G2', [('k', 'K', 'BTreeMap<String, U>'), ('t', None, '(T, U)')], generics='<T, U>', params=('T', 'U'), inst=('G2<u8, bool>', 'G2<Pair, Vec<u8>>'))
struct('G3', [('a', None, '[T; N]'), ('v', None, 'Vec<T>')], generics='<T, const N: usize>', params=('T', 'const N: usize'), inst=('G3<u8, 0>', 'G3<u8, 2>', 'G3<String, 3>'))
struct('G4', [('x', None, 'T')], generics='<T>', where='where T: Clone ', params=('T',), inst=('G4<u8>', 'G4<String>'))
struct('G5', [('x', None, 'T'), ('y', 'why', 'Box<T>')], generics='<T: Clone>', params=('T',), inst=(), where='') if False else None
struct('B1', [('s', None, "&'a str"), ('c', None, "Cow<'a, str>"), ('n', None, "&'a u8")], generics="<'a>", params=("'a",), derive='Serialize', groups='P12', inst=("B1<'static>",))
struct('B2', [('s', 'S', "&'a T"), ('v', None, "&'a [T]"), ('o', None, "Option<&'a T>")], generics="<'a, T>", params=("'a", 'T'), derive='Serialize', groups='P12', inst=("B2<'static, u8>", "B2<'static, Pair>"))
struct('Many', [(f'f{k}', (f'field {k}' if k % 5 == 0 else None), ['u8', 'Option<bool>', 'String', 'Option<u8>', 'Vec<u8>'][k % 5]) for k in range(70)])
struct('Wide', [(f'f{k}', None, 'Option<u8>') for k in range(270)])

# names of every length near a machine word, differing in one place only
def long_names():
    v = []
    for n in (2, 3, 4, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 255, 256, 257):
        base = ''.join(chr(97 + k % 26) for k in range(n))
        for k in sorted({-1, 0, n // 2, n - 1}):
            v.append(base if k < 0 else base[:k] + chr(ord(base[k]) ^ 1 if base[k] != '`' else 119) + base[k + 1:])
    return list(dict.fromkeys(v))
LONG = long_names()
struct('Long', [(f'l{k}', x, 'Option<u8>') for k, x in enumerate(LONG)])
struct('LongMust', [(f'l{k}', x, 'u8') for k, x in enumerate(LONG[40:60])])
enum('LongV', [(f'L{k}', x) for k, x in enumerate(LONG)])
struct('UnknownOnly', [('zz', None, 'Option<u8>')], groups='P26 P10')
struct('Ig', [('a', None, 'u8'), ('s', None, 'String'), ('n', None, 'Option<Node>')], groups='P26')

struct('Skip1', [('pre', None, 'u8'), ('inner', None, 'Option<Box<Skip1>>'), ('list', None, 'Vec<Skip2>'), ('post', None, 'String')], groups='P26')
struct('Skip2', [('a', '', 'bool'), ('map', None, 'BTreeMap<String, Skip2>')], groups='P26')
plain('P26', 'Vec<Ig>', 'BTreeMap<String, Ig>', 'Option<Box<Pair>>', '(Ig, Ig)', '[UnknownOnly; 2]', 'Vec<Empty>', 'Box<Skip1>', 'Vec<BTreeMap<String, Option<Ig>>>')
enum('Uno', [('Only', None)])
enum('Ren', [('A', 'a'), ('B', 'A'), ('C', 'B'), ('D', ''), ('E', 'é"\\\n'), ('F', None), ('r#Type', None), ('G', 'r#G'), ('H', ' H ')])
enum('Pref', [('A', None), ('Aa', None), ('AAa', 'aa'), ('Ab', None), ('Abc', None)])
enum('Disc', [('X', None, 10), ('Y', 'why', 3), ('Z', None, 7)], extra=' #[repr(u8)] #[derive(Clone, Copy)]')
enum('Disc2', [(f'N{k}', (f'n {k}' if k % 7 == 3 else None), (k * 37) % 100 - 50) for k in range(40)], extra=' #[repr(i8)]')
enum('Disc3', [(f'M{k}', None) + ((k * 1000003 - 5 * 10**9,) if k % 4 == 0 else ()) for k in range(60)], extra=' #[repr(i64)]')
enum('Disc4', [(f'O{k}', None, 235 + k) for k in range(20)], extra=' #[repr(u8)]')
enum('Disc5', [(f'P{k}', f'p{(k * 11) % 24}', 23 - k) for k in range(24)])
enum('Disc6', [(f'Q{k}', None) + ((2 * k + 300,) if k in (3, 9) else ()) for k in range(18)], extra=' #[repr(C)]')
for n in (15, 16, 17, 32, 33, 255, 256, 257, 300):
    enum(f'Num{n}', [(f'V{k}', (f'{k}' if k % 2 else None)) for k in range(n)], groups='P11')
LITERAL = ['null', 'true', 'false', '0', '1', '-1', '-0', '1.5', '1e2', '18446744073709551615', '[]', '{}', '""', '"a"', '[0]', '{"a":0}', 'Null', 'None', 'Some', 'NaN', 'inf', 'unit', '()']
# names that read as JSON of another kind: alone, in pairs, all together
for k, x in enumerate(LITERAL):
    enum(f'Lit{k}', [('A', x), ('B', LITERAL[(k * 5 + 3) % len(LITERAL)])] if k % 2 else [('A', x)], groups='P11')
enum('Lits', [(f'L{k}', x) for k, x in enumerate(LITERAL)], groups='P11')
plain('P11', 'Option<Lits>', 'Vec<Lits>', 'BTreeMap<String, Lits>', 'Option<Lit0>', 'Box<Lit0>', '[Lit1; 2]')
struct('LitS', [(f'l{k}', x, ['Option<u8>', 'u8', 'Lits', 'Option<Lits>'][k % 4]) for k, x in enumerate(LITERAL)], groups='P10 P11 P12')
enum('Big', [(f'V{k}', (f'v-{k}' if k % 3 == 0 else None)) for k in range(90)])

enum('RenAll', [(f'C{k}', chr(k) + ('x' if k % 2 else '')) for k in list(range(0, 128)) if chr(k) not in '{}'] + [('D1', 'a\\u0000b'), ('D2', '\u2028'), ('D3', '\U0001f600')], groups='P11')
# groups W..: only read, from very wide documents
plain('W06', 'Vec<i8>', 'Vec<u64>', 'Vec<i64>', 'Vec<f32>', 'Vec<f64>', 'Vec<bool>', 'Vec<()>', 'Vec<String>')
plain('W07', 'Vec<Option<u8>>', 'Option<Box<Vec<Box<u8>>>>', 'Vec<Box<Option<bool>>>', 'Option<Vec<u8>>', 'Box<Vec<Option<()>>>', 'BTreeMap<String, Option<u8>>', 'Vec<Option<Pair>>')
plain('W08', 'Vec<u8>', 'Vec<()>', 'Vec<String>', 'Vec<(u8, u8)>', 'Vec<Vec<u8>>', 'Vec<[u8; 2]>', 'Vec<Pair>', 'Box<Vec<u8>>', '(Vec<u8>, u8)', '(u8, Vec<u8>)', '[u8; 1000]', '[u8; 65535]', '[u8; 65536]', '[u8; 65537]', '[(); 65536]', '[String; 400]', '[u16; 4097]', '[(u8, bool); 300]', '(u8, [u8; 300])', 'Vec<Value>')
plain('W09', 'BTreeMap<String, u8>', 'BTreeMap<u32, bool>', 'BTreeMap<String, Vec<u8>>', 'BTreeMap<String, BTreeMap<String, u8>>', 'BTreeMap<i64, Pair>', 'Box<BTreeMap<String, ()>>', '(u8, BTreeMap<String, u8>)')
for t in ['HashMap<String, u8>', 'HashMap<u32, u8>', 'HashMap<String, Vec<u8>>', 'HashMap<String, u8, Weak>'][:3]:
    entries.append(('W09 std', t, True, True))
struct('WideField', [('a', None, 'u8'), ('v', None, 'Vec<u8>'), ('z', None, 'u8')], groups='W08 W10')
plain('W10', 'Pair', 'Nest', 'Many', 'Vec<Pair>', 'UnknownOnly', 'Empty', 'Deflt', 'Names')
plain('W11', 'Vec<Color>', 'Vec<Ren>', 'BTreeMap<String, Big>', 'Vec<Option<LongV>>')
plain('P17', 'Value', 'Vec<Value>', 'Array', 'Object', 'Number', 'Vec<Number>', 'Vec<Vec<Vec<u8>>>', 'Vec<()>', 'BTreeMap<String, Vec<BTreeMap<String, Option<u8>>>>', '(Vec<Value>, BTreeMap<String, Value>)', 'Vec<BTreeMap<u8, ()>>')
wonly('P17', "&'static str", "Cow<'static, str>", "&'static u8", "&'static [u8]", "&'static [Vec<u8>]", "Option<&'static str>", "Vec<&'static Pair>", "Box<&'static [Option<bool>]>", "&'static &'static bool", "&'static Value")
plain('P19', 'String', 'Vec<String>', 'BTreeMap<String, String>', 'BTreeMap<String, u8>', 'BTreeMap<char, u8>', 'Value', 'Object', '(String, String)', 'Option<String>', '[String; 2]', 'BTreeMap<String, BTreeMap<String, ()>>', 'Esc', 'Ren', 'RenAll')
wonly('P19', "&'static str", "Cow<'static, str>", "Box<&'static str>", "Vec<Cow<'static, str>>")
plain('P20', *[t for t in SCALARS if t not in ('bool', '()', 'String')], 'Number', 'Vec<f64>', 'Vec<f32>', '(f64, f32)', 'Option<f64>', 'Box<f32>', 'Vec<Number>', 'Vec<i64>', '(u64, i64)', '[i8; 4]', 'BTreeMap<i64, u64>', 'Value')
wonly('P20', "&'static f64", "&'static i64", "&'static [u64]")
plain('P21', 'Value', 'Array', 'Object', 'Number', 'BTreeMap<String, Value>', 'Vec<BTreeMap<String, Vec<String>>>', '(Value, Option<Value>)', 'BTreeMap<char, BTreeMap<i64, Box<u64>>>')

# --------------------------------------------------------------- random part
seed = int(sys.argv[1])
nrand = int(sys.argv[2])
rnd = random.Random(seed * 7919 + 13)
KW = ['type', 'match', 'fn', 'struct', 'enum', 'impl', 'for', 'loop', 'ref', 'mod', 'use', 'async', 'dyn', 'where', 'move', 'static', 'const', 'true', 'box', 'yield', 'try', 'gen']
IDS = ['a', 'b', 'c', 'id', 'name', 'x1', 'foo_bar', 'fooBar', 'UPPER', '_under', 'trailing_', 'élan', 'ключ', 'k', 'v', 'len', 'out', 'self_', 'data', 'state', 'item', 'value', 'next', 'begin', 'finish', 'string', 'r', 'this', 'ok', 'err', 'some', 'none']
RENS = ['', ' ', 'a b', '$id', '@type', 'x-y', 'a.b', '\t', '"', "'", '\\', '\\n', '\n', '\u0000', 'null', 'true', '0', '-1', 'é', 'É', '日本', '😀', '\u2028', '\ufeff', 'ſ', 'K', 'ß', 'r#type', '{}', '{0}', '%s', '/', '</script>', 'a' * 40, '\x7f', '\x80', '__out', 'Self', 'self', 'type']

def rty(d, allow_named):
    base = ['u8', 'i8', 'u16', 'i32', 'u64', 'i64', 'bool', 'String', 'f64', '()', 'f32', 'usize', 'Value', 'Number', 'Array', 'Object']
    c = rnd.random()
    if d <= 0 or c < 0.42:
        return rnd.choice(base + allow_named)
    k = rnd.randrange(8)
    t = lambda: rty(d - 1, allow_named)
    if k in (0, 1): return f'Option<{t()}>'
    if k == 2: return f'Box<{t()}>'
    if k == 3: return f'Vec<{t()}>'
    if k == 4: return f'({t()}, {t()})'
    if k == 5: return f'[{t()}; {rnd.randrange(4)}]'
    if k == 6: return f'BTreeMap<{rnd.choice(["String", "i8", "u16", "char", "bool"])}, {t()}>'
    return rnd.choice(base + allow_named)

named = ['Color', 'Pair']
for k in range(nrand):
    if rnd.random() < 0.35:
        n = rnd.choice([1, 2, 3, 4, 5, 8, 12])
        ids = rnd.sample(['Alpha', 'Beta', 'alpha', 'X', 'Y', 'r#Type', 'r#match', 'VeryLongVariantName', 'É', 'A1', 'A2', 'A11', '_U', 'r#fn', 'Ok', 'Err', 'Some', 'None'], n)
        used = set(v[2:] if v.startswith('r#') else v for v in ids)
        vs = []
        for v in ids:
            r = None
            if rnd.random() < 0.4:
                r = rnd.choice(RENS)
                if r in used or r in [w[1] for w in vs]:
                    r = None
            vs.append((v, r))
        enum(f'RE{k}', vs)
        named.append(f'RE{k}')
    else:
        n = rnd.choice([0, 1, 1, 2, 2, 3, 3, 4, 5, 6, 9])
        ids = rnd.sample(IDS, n)
        for j in range(n):
            if rnd.random() < 0.15:
                kw = 'r#' + rnd.choice(KW)
                if kw not in ids:
                    ids[j] = kw
        plainnames = [v[2:] if v.startswith('r#') else v for v in ids]
        fs = []
        used = set()
        free = list(plainnames)
        for j, v in enumerate(ids):
            r = None
            if rnd.random() < 0.4:
                r = rnd.choice(RENS + plainnames)
            jn = r if r is not None else plainnames[j]
            # keep JSON names distinct, also from the identifiers still to come
            if jn in used or (r is not None and r in plainnames[j + 1:]) or (r is not None and r == plainnames[j] and r in used):
                r = None
                jn = plainnames[j]
            if jn in used:
                r = f'uniq{j}'
                jn = r
            used.add(jn)
            fs.append((v, r, rty(rnd.choice([0, 1, 2, 3]), named[-6:])))
        struct(f'RS{k}', fs, groups='P10 P12 P21')
        named.append(f'RS{k}')
    if len(named) > 3 and rnd.random() < 0.5:
        plain('P07' if rnd.random() < .3 else 'P21', rty(3, named[-5:]))

seen = set()
reg = []
want = set(sys.argv[4].split(',')) if len(sys.argv) > 4 else {'all'}
extra = set(sys.argv[5].split('|')) if len(sys.argv) > 5 else set()
for g, t, r, w in entries:
    if 'std' in g and os.environ.get('MH_NOSTD'):
        continue
    if g[0] == 'W' and not want & set(g.split()):
        continue
    if 'all' not in want and not want & set(g.split()) and t not in extra:
        continue
    reg.append((g, t, r, w))
out.append('pub fn registry() -> Vec<Entry> { let mut v: Vec<Entry> = vec![];')
for g, t, r, w in reg:
    cfg = '#[cfg(feature = "std")] ' if 'std' in g else ''
    f = 'rw' if r and w else ('wo' if w else 'ro')
    out.append(f'    {cfg}v.push(Entry::{f}::<{t}>({rs(g)}, {rs(t)}));')
out.append('    v }')
open(sys.argv[3], 'w').write('\n'.join(out) + '\n')
