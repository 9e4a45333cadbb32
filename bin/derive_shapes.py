#!/usr/bin/env python3
"""Items carrying a derive, as numbered by spec/Derive.tla, rendered as Rust
and given to the compiler.

  derive_shapes.py ITEMS OUT --repo /repo --dir D --target T [--edition E] [--shards N]

ITEMS: one JSON list per line, [expected, item code...].  OUT: one record per
line, [item, compiled, names]."""
import sys, os, json, subprocess, argparse
from concurrent.futures import ThreadPoolExecutor

POOL = ['a', 'b', 'r#type', 'type', 'é', 'value', 'x', '', 'a"b\\', 'A', 'B', 'fn', 'data', 'state', 'éx', 'D', 'F', 'G', 'H', 's',
        'r#fn', 'Type', 'Fn', 'camelCase', 'X', ' a', 'a ', 'gone', 'Gone', '__out', 'default', 'self']
FIELDS = {1: ('a', 'u8', '1'), 2: ('r#type', '::std::string::String', '::std::string::String::new()'), 3: ('é', 'bool', 'true'),
          4: ('value', '::std::vec::Vec<u8>', '::std::vec::Vec::new()'), 5: ('b', '::std::option::Option<::std::boxed::Box<Self>>', '::std::option::Option::None'),
          6: ('data', '(u8, [u16; 2])', '(1, [2, 3])'), 7: ('state', 'i8', '1'), 8: ('gone', 'Nothing', None)}
VARIANTS = {1: 'A', 2: 'r#fn', 3: 'B = 7', 4: 'D(u8)', 5: 'F { x: u8 }', 6: 'G()', 7: 'H {}', 8: 'Gone(Nothing)', 9: 's'}
METAS = {1: 'rename = "x"', 2: 'rename = ""', 3: 'rename = r#"a"b\\"#', 4: 'rename = "r#type"', 5: 'rename = "\\u{e9}x"',
         6: 'rename = 1', 7: 'rename = b"x"', 8: 'rename', 9: 'rename("x")', 10: 'default', 11: 'alias = "x"', 12: 'a::rename = "x"', 13: 'skip',
         14: "rename = 'x'", 15: 'rename = concat!("x")', 16: 'rename_all = "x"', 17: 'rename = c"x"', 18: 'rename = true', 19: 'rename = x'}
IATTR = {0: '', 1: '#[repr(C)]', 2: '/// A comment.\n#[deprecated]', 3: '#[non_exhaustive]', 4: '#[serde(rename_all = "camelCase")]', 5: '#[serde(rename = "x")]', 6: '#[serde(default)]'}
SER, DE = 1, 2
NAMED, TUPLE, UNIT, ENUM, UNION = 1, 2, 3, 4, 5


def decode(c):
    """Item code to nested lists."""
    k = 4
    n = c[k]
    gens = c[k + 1:k + 1 + n]
    k += 1 + n
    n = c[k]
    k += 1
    ms = []
    for _ in range(n):
        m, na = c[k], c[k + 1]
        k += 2
        at = []
        for _ in range(na):
            f, nm = c[k], c[k + 1]
            at.append([f, c[k + 2:k + 2 + nm]])
            k += 2 + nm
        ms.append([m, at])
    assert k == len(c), c
    return [c[0], c[1], c[2], c[3], gens, ms]


def attr(a):
    f, ms = a
    body = ', '.join(METAS[m] for m in ms)
    return {1: '#[serde(%s)]' % body, 2: '#[serde(%s,)]' % body, 3: '#[cfg_attr(all(), serde(%s))]' % body, 4: '#[cfg_attr(any(), serde(%s))]' % body,
            5: '#[serde]', 6: '#[serde = "x"]', 7: '#[doc = "x"]', 8: '#[allow(unused)]',
            9: '#[serde[%s]]' % body, 10: '#[serde{%s}]' % body}[f]


def generics(gens, tr, kind):
    """Parameters, arguments, predicates, fields using them."""
    t = '::miniserde::Serialize' if tr == SER else '::miniserde::Deserialize'
    lts, ps, ds, preds, fields, args = [], [], [], [], [], {}
    for g in gens:
        if g == 1:
            ps.append(('T', 'T', 'u8'))
            fields.append(('gt', 'T', '1'))
        elif g == 2:
            ps.append(('U: ::std::clone::Clone', 'U', 'u8'))
            fields.append(('gu', '::std::vec::Vec<U>', '::std::vec::Vec::new()'))
        elif g == 3:
            ds.append(('D = u8', 'D', 'u8'))
            fields.append(('gd', 'D', '1'))
        elif g == 4:
            lts.append(("'a", "'a", "'static"))
            fields.append(('ga', "&'a u8", '&1') if tr == SER else ('ga', "super::Ph<'a>", None))
        elif g == 5:
            lts += [("'b", "'b", "'static"), ("'c: 'b", "'c", "'static")]
            fields.append(('gb', "&'b &'c u8", '&&1') if tr == SER else ('gb', "(super::Ph<'b>, super::Ph<'c>)", None))
        elif g == 6:
            ps.append(('const N: usize', 'N', '2'))
            fields.append(('gn', '[u8; N]', '[1, 2]'))
        elif g == 7:
            ds.append(('const M: usize = 3', 'M', '1'))
            fields.append(('gm', '[u8; M]', '[1]'))
        elif g == 8:
            ps.append(('V', 'V', 'u8'))
            preds.append('V: ::std::marker::Copy')
            fields.append(('gv', 'V', '1'))
        elif g == 9:
            ps.append(('W: ?::std::marker::Sized', 'W', 'str'))
            fields.append(('gw', '::std::boxed::Box<W>', '::std::boxed::Box::<str>::from("")'))
        elif g == 10:
            preds.append('Self: super::Mark')
        elif g == 11:
            ps.append(('I: ::std::iter::Iterator', 'I', 'super::It'))
            preds.append('I::Item: ' + t)
            fields.append(('gi', '::std::option::Option<I::Item>', '::std::option::Option::None'))
            fields.append(('gj', '::std::option::Option<I>', '::std::option::Option::None'))
        elif g == 12:
            preds.append('u8: ::std::marker::Copy')
    allp = lts + ps + ds
    par = '<%s>' % ', '.join(p[0] for p in allp) if allp else ''
    # an impl takes no defaults
    ipar = '<%s>' % ', '.join(p[0].split(' = ')[0] for p in allp) if allp else ''
    arg = '<%s>' % ', '.join(p[1] for p in allp) if allp else ''
    inst = '<%s>' % ', '.join(p[2] for p in allp) if allp else ''
    return par, ipar, arg, inst, preds, fields


def render(t):
    """The module of an item: text of the item and of its observation."""
    kind, tr, ctx, ia, gens, ms = t
    par, ipar, arg, inst, preds, gf = generics(gens, tr, kind)
    where = ' where ' + ', '.join(preds) if preds else ''
    derive = '#[derive(::miniserde::%s)]' % ('Serialize' if tr == SER else 'Deserialize')
    vis = 'pub(super) ' if ctx != 2 else ''
    types, lits = [], []

    def typ(x):
        if ctx == 3 and 'Self' not in x and "'" not in x and not any(g in x for g in 'TUDVWINM'):
            types.append(x)
            return '$t%d' % (len(types) - 1)
        return x

    def attrs(m):
        r = []
        for a in m[1]:
            if ctx == 3 and a[0] <= 3 and len(a[1]) == 1 and a[1][0] <= 5:
                lits.append(METAS[a[1][0]].split(' = ', 1)[1])
                x = '#[serde(rename = $l%d%s)]' % (len(lits) - 1, ',' if a[0] == 2 else '')
                if a[0] == 3:
                    x = '#[cfg_attr(all(), serde(rename = $l%d))]' % (len(lits) - 1)
                r.append(x)
            else:
                r.append(attr(a))
        return ' '.join(r) + (' ' if r else '')

    gone = '#[cfg(any())] '
    head = (IATTR[ia] + ' ' if ia else '')
    if head.startswith('///'):
        head = '/** A comment. */ #[deprecated] '
    if kind == NAMED:
        fs = [attrs(m) + (gone if m[0] == 8 else '') + vis + FIELDS[m[0]][0] + ': ' + typ(FIELDS[m[0]][1]) for m in ms]
        fs += [vis + f[0] + ': ' + f[1] for f in gf]
        body = '%sstruct S%s%s { %s }' % (vis, par, where, ', '.join(fs))
    elif kind == TUPLE:
        fs = [typ(FIELDS[m[0]][1]) for m in ms] + [f[1] for f in gf]
        body = '%sstruct S%s(%s)%s;' % (vis, par, ', '.join(fs), where)
    elif kind == UNIT:
        body = '%sstruct S%s%s;' % (vis, par, where)
    elif kind == ENUM:
        fs = [attrs(m) + (gone if m[0] == 8 else '') + VARIANTS[m[0]] for m in ms]
        body = '%senum S%s%s { %s }' % (vis, par, where, ', '.join(fs))
    else:
        body = '%sunion S%s%s { %s }' % (vis, par, where, ', '.join(['z: u8'] + ['%s: u8' % FIELDS[m[0]][0] for m in ms] + ['gn: [u8; N]' for g in gens if g == 6] + ["gt: ::std::marker::PhantomData<T>" for g in gens if g == 1]))
    item = '%s %s%s' % (derive, head, body)
    if 10 in gens:
        other = [p for p in preds if p != 'Self: super::Mark']
        item += ' #[allow(deprecated)] impl%s super::Mark for S%s%s {}' % (ipar, arg, ' where ' + ', '.join(other) if other else '')
    if ctx == 3:
        ps = ['$n:ident'] + ['$t%d:ty' % k for k in range(len(types))] + ['$l%d:literal' % k for k in range(len(lits))]
        item = 'macro_rules! mk { (%s) => { %s } } mk!(%s);' % (', '.join(ps), item.replace(' S', ' $n', 1) if ' S' in item else item, ', '.join(['S'] + types + lits))
        # only the name in the definition itself is a capture
    if ctx == 5:
        item = ('#[allow(non_camel_case_types)] pub struct Ok(u8); pub struct Err; pub struct Some; pub struct None; pub struct Box; pub struct Option; pub struct Result; pub struct Error; '
                'pub struct String; pub struct Vec; pub struct Cow; pub struct Visitor; pub struct Fragment; pub mod core {} pub mod std {} pub mod alloc {} pub trait Map {} pub trait Seq {} pub trait Serialize {} pub trait Deserialize {} ') + item
    if ctx == 6:
        item = ('#[allow(non_upper_case_globals)] pub static value: u8 = 1; #[allow(non_upper_case_globals)] pub const s: u8 = 1; #[allow(non_upper_case_globals)] pub static data: u8 = 1; '
                '#[allow(non_upper_case_globals)] pub static a: u8 = 1; #[allow(non_upper_case_globals)] pub const b: u8 = 1; #[allow(non_upper_case_globals)] pub static r#type: u8 = 1; #[allow(non_upper_case_globals)] pub const state: u8 = 1; ') + item
    # what the compiled code knows its members as
    S = ('m::S' if ctx != 2 else 'S')
    if kind == NAMED:
        tn = S + inst
        if tr == SER:
            # deprecated and the like do not matter; functional update is never needed
            fs = ['%s: %s' % (FIELDS[m[0]][0], FIELDS[m[0]][2]) for m in ms if m[0] != 8] + ['%s: %s' % (f[0], f[2]) for f in gf]
            obs = 'let v: %s = %s { %s }; super::written(&v)' % (tn, S, ', '.join(fs))
        else:
            obs = 'super::read_struct::<%s>()' % tn
    elif kind == ENUM:
        vs = [VARIANTS[m[0]].split(' ')[0] for m in ms if m[0] != 8]
        tn = S
        if tr == SER:
            obs = 'let v: Vec<%s> = vec![%s]; super::written_enum(&v)' % (tn, ', '.join('%s::%s' % (tn, v) for v in vs))
        else:
            obs = 'super::read_enum::<%s>()' % tn
    else:
        obs = 'Vec::new()'
    return item, obs


PRELUDE = r'''#![allow(warnings)]
use ::miniserde::{de, ser, Deserialize, Serialize};
pub trait Mark {}
pub struct Ph<'a>(::std::marker::PhantomData<&'a u8>);
impl<'a> Deserialize for Ph<'a> { fn begin(_: &mut Option<Self>) -> &mut dyn de::Visitor { unimplemented!() } }
pub struct It;
impl Iterator for It { type Item = u8; fn next(&mut self) -> Option<u8> { None } }
impl Serialize for It { fn begin(&self) -> ser::Fragment<'_> { ser::Fragment::Null } }
impl Deserialize for It { fn begin(out: &mut Option<Self>) -> &mut dyn de::Visitor { It2::make(out) } }
miniserde::make_place!(It2);
impl It2<It> { fn make(out: &mut Option<It>) -> &mut dyn de::Visitor { It2::new(out) } }
impl de::Visitor for It2<It> {}
fn number(c: &str) -> i64 { POOL.iter().position(|x| *x == c).map_or(-1, |k| k as i64 + 1) }
/// The generated fields have names of their own.
fn generic(c: &str) -> bool { c.len() == 2 && c.starts_with('g') }
fn written(v: &dyn Serialize) -> Vec<i64> {
    let mut r = vec![];
    let ser::Fragment::Map(mut m) = v.begin() else { return vec![-2] };
    while let Some((k, _)) = m.next() { if !generic(&k) { r.push(number(&k)) } }
    r
}
fn written_enum<T: Serialize>(v: &[T]) -> Vec<i64> {
    v.iter().map(|x| { let ser::Fragment::Str(s) = x.begin() else { return -2 }; number(&s) }).collect()
}
fn read_struct<T: Deserialize>() -> Vec<i64> {
    let mut out: Option<T> = None;
    let Ok(mut m) = T::begin(&mut out).map() else { return vec![-2] };
    let mut r = vec![];
    for (k, c) in POOL.iter().enumerate() {
        let Ok(v) = m.key(c) else { return vec![-3] };
        let any = v.null().is_ok() && v.boolean(true).is_ok() && v.string("").is_ok() && v.negative(-1).is_ok() && v.float(1.5).is_ok();
        if !any { r.push(k as i64 + 1) }
    }
    r
}
fn read_enum<T: Deserialize>() -> Vec<i64> {
    let mut r = vec![];
    for (k, c) in POOL.iter().enumerate() {
        let mut out: Option<T> = None;
        if T::begin(&mut out).string(c).is_ok() && out.is_some() { r.push(k as i64 + 1) }
    }
    r
}
'''


def program(items, observe):
    """The source of a program with the items, and the item of each line."""
    src = PRELUDE.split('\n')
    src.append('const POOL: &[&str] = &[%s];' % ', '.join(json.dumps(x, ensure_ascii=False) for x in POOL))
    owner = {}
    for n, t in items:
        item, obs = render(t)
        ctx = t[2]
        if not observe:
            obs = 'Vec::new()'
        inner = '#[no_implicit_prelude] ' if ctx == 4 else ''
        lints = '#![forbid(unsafe_code)] #![deny(warnings, rust_2018_idioms, rust_2021_compatibility, unused, unreachable_pub, missing_docs, missing_debug_implementations, trivial_casts, unused_qualifications, unused_results, let_underscore_drop)] #![allow(dead_code, non_camel_case_types, unused_attributes, missing_docs, missing_debug_implementations, unreachable_code, unused_doc_comments, explicit_outlives_requirements)] ' if ctx == 7 else ''
        src.append('mod i%d {' % n)
        if ctx == 2:
            src.append('pub fn obs() -> Vec<i64> { %s' % item)
            owner[len(src)] = n
            src.append('%s }' % obs)
        else:
            # the item stands two modules below the helpers
            uses = ('use ::miniserde; ' if ctx == 4 else '') + ('use super::super as help; ' if 'super::' in item.replace('pub(super)', '') else '')
            src.append('%smod m { %s%s%s }' % (inner, lints, uses, item.replace('super::Mark', 'help::Mark').replace('super::Ph', 'help::Ph').replace('super::It', 'help::It')))
            owner[len(src)] = n
            src.append('pub fn obs() -> Vec<i64> { %s }' % obs.replace('super::It', 'crate::It'))
        owner[len(src)] = n
        src.append('}')
    src.append('fn main() {')
    if observe:
        src.append('let all: &[(usize, fn() -> Vec<i64>)] = &[%s];' % ', '.join('(%d, i%d::obs)' % (n, n) for n, _ in items))
        src.append('for (n, f) in all { match std::panic::catch_unwind(f) { Ok(v) => println!("{} {:?}", n, v), Err(_) => println!("{} [-9]", n) } }')
    src.append('}')
    return '\n'.join(src) + '\n', owner


class Shard:
    def __init__(self, a, k):
        self.a, self.k = a, k
        self.dir = os.path.join(a.dir, 'shapes%d' % k)
        os.makedirs(os.path.join(self.dir, 'src'), exist_ok=True)
        open(os.path.join(self.dir, 'Cargo.toml'), 'w').write('[package]\nname = "shapes%d"\nversion = "0.0.0"\nedition = "%s"\n[dependencies]\nminiserde = { path = "%s" }\n[workspace]\n[profile.dev]\nopt-level = 0\ndebug = 0\n' % (k, a.edition, a.repo))

    def cargo(self, what):
        env = dict(os.environ, CARGO_TARGET_DIR=os.path.join(self.a.target, str(self.k)), CARGO_NET_OFFLINE='true', RUSTFLAGS='', CARGO_INCREMENTAL='0')
        r = subprocess.run(['cargo', what, '--offline', '--quiet', '--message-format=json'], cwd=self.dir, env=env, stdout=subprocess.PIPE, stderr=subprocess.PIPE)
        return r

    def attempt(self, items, observe):
        """Compile the items together: set of items with an error, complaints about no item, the program's output."""
        src, owner = program(items, observe)
        open(os.path.join(self.dir, 'src', 'main.rs'), 'w').write(src)
        r = self.cargo('build' if observe else 'check')
        bad, stray, why = set(), [], {}
        for l in r.stdout.decode('utf8', 'replace').split('\n'):
            if not l.startswith('{'):
                continue
            j = json.loads(l)
            if j.get('reason') != 'compiler-message' or not str(j['message'].get('level', '')).startswith('error'):
                continue
            if 'shapes%d' % self.k not in j.get('package_id', ''):
                raise SystemExit('the library itself does not build:\n' + j['message'].get('rendered', ''))
            m = j['message']
            hit = set()

            def spans(m):
                for s in m.get('spans', []):
                    while s:
                        if s['file_name'].endswith('main.rs'):
                            for ln in range(s['line_start'], s['line_end'] + 1):
                                if ln in owner:
                                    hit.add(owner[ln])
                        s = s['expansion']['span'] if s.get('expansion') else None
            spans(m)
            for n in hit:
                why.setdefault(n, m.get('message', ''))
            bad |= hit
            if not hit and m.get('spans'):
                stray.append(m.get('rendered', ''))
        if r.returncode and not bad and not stray:
            stray.append(r.stderr.decode('utf8', 'replace')[-3000:] + r.stdout.decode('utf8', 'replace')[-3000:])
        out = {}
        if observe and r.returncode == 0:
            exe = os.path.join(self.a.target, str(self.k), 'debug', 'shapes%d' % self.k)
            p = subprocess.run([exe], stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=300)
            for l in p.stdout.decode().split('\n'):
                if l:
                    n, v = l.split(' ', 1)
                    out[int(n)] = json.loads(v)
        return bad, stray, why, out

    def run(self, items):
        """items: (number, expected, item).  Returns number -> (compiled, names, why)."""
        res = {}
        # what should be refused: the compiler stops at the first stage with
        # errors, so go on with the others until there are no more
        rest = [(n, t) for n, e, t in items if not e]
        while rest:
            bad, stray, why, _ = self.attempt(rest, False)
            for n in bad:
                res[n] = (0, [], why.get(n, ''))
            if not bad:
                if stray:
                    raise SystemExit('\n'.join(stray[:3]))
                break
            rest = [x for x in rest if x[0] not in bad]
        wrongly = rest
        # what should be taken
        rest = [(n, t) for n, e, t in items if e] + wrongly
        while rest:
            bad, stray, why, out = self.attempt(rest, True)
            for n in bad:
                res[n] = (0, [], why.get(n, ''))
            if not bad:
                if stray:
                    raise SystemExit('\n'.join(stray[:3]))
                for n, t in rest:
                    res[n] = (1, out.get(n, [-8]), '')
                break
            rest = [x for x in rest if x[0] not in bad]
        return res


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('items')
    ap.add_argument('out')
    ap.add_argument('--repo', default='/repo')
    ap.add_argument('--dir')
    ap.add_argument('--target')
    ap.add_argument('--edition', default='2021')
    ap.add_argument('--shards', type=int, default=8)
    a = ap.parse_args()
    items = []
    for l in open(a.items):
        c = json.loads(l)
        items.append((len(items), c[0], decode(c[1:])))
    parts = [items[k::a.shards] for k in range(a.shards)]
    with ThreadPoolExecutor(a.shards) as ex:
        rs = list(ex.map(lambda k: Shard(a, k).run(parts[k]) if parts[k] else {}, range(a.shards)))
    res = {}
    for r in rs:
        res.update(r)
    with open(a.out, 'w') as f:
        for n, e, t in items:
            ok, names, why = res[n]
            f.write(json.dumps([t, ok, names, render(t)[0] if ok != e else '', why if ok != e else ''], separators=(',', ':'), ensure_ascii=False) + '\n')
    print('items %d taken %d refused %d' % (len(items), sum(r[0] for r in res.values()), sum(1 - r[0] for r in res.values())))


if __name__ == '__main__':
    main()
