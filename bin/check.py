#!/usr/bin/env python3
"""Decides one property: check.py Pxx (VERIF_SEED, VERIF_TIER)."""
import json, os, subprocess, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from lib import Check, REPO, Stop, ToolError, VERIF, main


def toks(*ts):
    return [list(t.encode() if isinstance(t, str) else bytes(t)) for t in ts]


def text_of(b):
    return bytes(b).decode('utf8', 'replace')


def show_text(r):
    return {'text': text_of(r[0]), 'observed': r[1], 'value': json.dumps(r[2])[:1500]}


# ---------------------------------------------------------------- text reads
RUNS = {'P01': 'both', 'P03': 'str', 'P04': 'num', 'P05': 'num'}
WORDS = {
    'struct': (toks('[', ']', '{', '}', ',', ':', '"a"', '1', ' ', '"b"'), 7, 8),
    'number': (toks('-', '0', '1', '9', '.', 'e', 'E', '+', ' ', '['), 6, 7),
    'string': (toks('"', '\\', '\\u', 'd8', '00', 'dc', 'n', 'u', 'é', '\t', 'a'), 6, 7),
    'literal': (toks('n', 'u', 'l', 't', 'r', 'e', 'f', 'a', 's', ' '), 6, 7),
    'bytes': (toks(*[chr(c) for c in (9, 10, 13, 32, 34, 44, 45, 48, 49, 46, 58, 91, 92, 93, 101, 123, 125, 0, 11, 110)]), 5, 5),
    'members': (toks('{', '}', '"a"', '"b"', ':', ',', 'null', '[', ']', '"\\u0061"'), 7, 8),
    'hex': (toks('"', '\\u', '\\ud83', '\\udc0', 'd', '0', 'F', 'g', '00', 'ffff'), 6, 7),
    'digits': (toks('-', '0', '1', '18446744073709551', '615', '616', '9223372036854775', '807', '808', '9', '184467440737095516', '.'), 4, 5),
    'floats': (toks('-', '0', '1', '.', 'e', '-3', '17976931348623157', '99', '08', '24', '22', '5'), 5, 5),
}


def flip(rec, k, pos):
    rec[pos] = {'ok': 'err', 'err': 'ok'}[rec[pos]]
    return rec


def text_canary(full):
    def f(r, k):
        t = text_of(r[0])
        if r[1] not in ('ok', 'err') or any(x in t for x in 'eE.') or len(t) > 300:
            return None
        if full and r[1] == 'ok' and k % 2:
            r[2] = r[2] + [['null']] if k % 4 == 1 else [['o', 0]] + r[2][1:] if r[2][0] != ['o', 0] else [['a', 0]]
            return r
        return flip(r, k, 1)
    return f


def words(c, d, name, cfg, less=0):
    tokens, lq, lt = WORDS[name]
    ln = c.q(lq, lt) - less
    tf, out, conf = c.path('w_%s.json' % name), c.path('words_%s.ndjson' % name), c.path('words_%s.conf' % name)
    json.dump(tokens, open(tf, 'w'))
    json.dump({'tokens': tokens, 'len': ln}, open(conf, 'w'))
    so = c.run([d + '/text', 'words', '--tokens', tf, '--len', str(ln), '--out', out], out)
    if so is False:
        return
    c.executions += int(so.split()[1])
    if os.path.getsize(out) == 0:
        c.violation('no word of the alphabet is accepted at all', {'alphabet': [text_of(t) for t in tokens], 'len': ln})
        return
    c.validate('words-%s<=%d' % (name, ln), 'Trace_Text', cfg, out, canary=text_canary(cfg != 'Trace_Text_accepts.cfg'), show=show_text,
               describe='every word the real reader accepts, of at most %d tokens over %s' % (ln, [text_of(t) for t in tokens]))
    c.model('words-%s<=%d' % (name, ln), 'MC_Words', env={'CONF': conf, 'TRACE': out},
            describe='all words of at most %d tokens: transducer = grammar, events are a walk, accepted words are accepted by the real reader' % ln)


def ctx(*pieces):
    """ctx('[' * 3, HOLE, ']'): the two halves as pieces <bytes, count>."""
    k = pieces.index(None)
    half = lambda ps: [[list((p if isinstance(p, str) else p[0]).encode()), 1 if isinstance(p, str) else p[1]] for p in ps]
    return [half(pieces[:k]), half(pieces[k + 1:])]


HOLE = None
DEEP = (7, 8, 15, 16, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 511, 512)
TOK_STRUCT = toks('[', ']', '{', '}', ',', ':', '"a"', '1', ' ')


def contexts(big):
    """Alphabets with the contexts every short word over them is read in."""
    deep = []
    for n in DEEP + ((1024, 1025, 2049) if big else (1025,)):
        deep += [ctx(('[', n), HOLE, (']', n)), ctx(('{"a":', n), HOLE, ('}', n))]
        if n % 4 in (0, 1):
            deep += [ctx(('[{"a":', n // 2), HOLE, ('}]', n // 2)), ctx(('{"a":[', n // 2), HOLE, (']}', n // 2)),
                     ctx(('[[],', n), HOLE, (',{}]', n)), ctx(('[', n), '{"b":2,', HOLE, '}', (']', n))]
    wide = [ctx('[', ('1,', n), HOLE, ']') for n in (9, 100, 255, 256, 1023, 4096, 32767, 65535, 65536) + ((131072,) if big else ())]
    wide += [ctx('[', HOLE, (',1', n), ']') for n in (7, 255, 256, 1024)]
    wide += [ctx('{', ('"a":1,', n), HOLE, '}') for n in (9, 255, 256, 1023, 4096) + ((65536,) if big else ())]
    wide += [ctx('{', HOLE, (',"b":null', n), '}') for n in (7, 255, 256)]
    wide += [ctx('[[', ('[],', n), '[]],', HOLE, ']') for n in (8, 256, 1024)]
    after = ['"x"', '"\\n"', '"\\ud83d\\ude00"', '0', '-0', '1.5', '1e5', '-7', '18446744073709551616', '1e-400', 'null', 'true', 'false', '[]', '{}', '{"a":[1]}', '[[1],[2]]', '""', '"%s"' % ('x' * 300), '"%s\\t"' % ('x' * 300)]
    flat = [ctx('[%s' % a, HOLE, ']') for a in after] + [ctx('[%s,' % a, HOLE, ']') for a in after] + [ctx('{"k":%s' % a, HOLE, '}') for a in after] + [ctx('{"k":%s,' % a, HOLE, '}') for a in after]
    flat += [ctx('{%s:' % a, HOLE, '}') for a in after if a[0] == '"'] + [ctx('{%s' % a, HOLE, '}') for a in after if a[0] == '"'] + [ctx('{', HOLE, ':1}'), ctx('{"a"', HOLE, '1}'), ctx(HOLE, '1'), ctx('1', HOLE), ctx('[1', HOLE, '2]'), ctx('{"a":1', HOLE, '"b":2}')]
    flat += [ctx((c, n), HOLE, (c, n)) for c in (' ', '\n', '\r\n', '\t') for n in (1, 7, 8, 16, 64, 300)]
    inside = []
    for n in tuple(range(18)) + (31, 32, 33, 63, 64, 65, 255, 256, 1024):
        for m in (0, 7, 8, 40):
            if m == 40 or n % 3 == 0 or n < 9:
                inside.append(ctx('"', ('a', n), HOLE, ('b', m), '"'))
        inside += [ctx('{"', ('a', n), HOLE, ('b', 16), '":1}'), ctx('["\\n', ('é', n), HOLE, ('é', 9), '"]')]
    numeric = [ctx('[', HOLE, ',1]'), ctx('{"a":', HOLE, '}'), ctx(HOLE), ctx('[-', HOLE, ']'), ctx('[0.', HOLE, ']'), ctx('[1e', HOLE, ']'), ctx('[1.5E-', HOLE, ' ]'), ctx('[0', HOLE, ']')]
    for n in (7, 8, 15, 16, 17, 18, 19, 20, 21, 22, 30, 40, 100, 308, 400):
        numeric += [ctx('[', ('1', n), HOLE, ']'), ctx('-', ('9', n), HOLE), ctx('{"a":0.', ('0', n), HOLE, '}'), ctx('[1', ('0', n), HOLE, 'e-500]'), ctx('[', HOLE, ('0', n), ']'), ctx('0.', HOLE, ('3', n)), ctx('[1.', ('1', n), HOLE, ']'), ctx('1e', ('0', n), HOLE)]
    lits = [ctx(('[', n), HOLE, (']', n)) for n in (0, 1, 2, 300)] + [ctx('[1,', HOLE, ',2]'), ctx('{"a":', HOLE, ',"b":2}'), ctx('{"a":[', HOLE, ']}'), ctx('  ', HOLE, '\n'), ctx('["', ('x', 100), '",', HOLE, ']')]
    return [
        ('deep', TOK_STRUCT, 3, 4, deep), ('wide', TOK_STRUCT, 3, 4, wide), ('flat', TOK_STRUCT, 4, 5, flat),
        ('inside', toks('"', '\\', '\\u', 'd8', '00', 'dc', '\x00', '\x1f', '\n', '\x7f', 'n', 'é', ','), 2, 3, inside),
        ('numeric', toks('-', '0', '1', '9', '.', 'e', 'E', '+', ' ', ','), 3, 4, numeric),
        ('lits', toks('null', 'true', 'false', 'n', 'ul', 'l', 'tr', 'ue', 'a', ' ', ','), 4, 5, lits),
    ]


def in_contexts(c, d, into, only=None):
    for name, tokens, lq, lt, cs in contexts(c.thorough):
        if only and name not in only:
            continue
        if into == 'ignored':
            cs = [[[[list(b'{"zz":'), 1]] + a, b + [[list(b'}'), 1]]] for a, b in cs]
        ln = c.q(lq, lt)
        tf, cf, out, conf = [c.path('ctx_%s_%s.%s' % (name, into, x)) for x in ('tok', 'ctx', 'ndjson', 'conf')]
        json.dump(tokens, open(tf, 'w'))
        json.dump(cs, open(cf, 'w'))
        json.dump({'tokens': tokens, 'len': ln, 'contexts': [{'pre': a, 'post': b} for a, b in cs]}, open(conf, 'w'))
        so = c.run([d + '/text', 'context', '--tokens', tf, '--contexts', cf, '--len', str(ln), '--into', into, '--out', out], out)
        if so is False:
            continue
        c.executions += int(so.split()[1])
        if os.path.getsize(out) == 0:
            c.violation('no word is accepted in any of the contexts', {'contexts': name, 'alphabet': [text_of(t) for t in tokens], 'len': ln})
            continue
        c.model('contexts-%s<=%d' % (name, ln), 'MC_Context', env={'CONF': conf, 'TRACE': out},
                describe='every word of at most %d tokens over %s in each of %d deep, wide or long contexts: accepted by the specification if and only if by the real reader (%s)' % (ln, [text_of(t) for t in tokens], len(cs), into))


def wide_canary(r, k):
    if r[1] != 'ok':
        return None
    j = (k * 37) % (len(r[2]) - 1) + 1
    r[2] = [r[2][:-1], r[2] + [['null']], r[2][:j] + r[2][j + 1:], r[2][:j] + [['s', [120]]] + r[2][j + 1:]][k % 4]
    return r


def wide(c, d):
    out = c.path('wide.ndjson')
    so = c.run([d + '/text', 'wide', '--seed', str(c.seed), '--scale', str(c.q(1, 3)), '--out', out], out)
    if so is False:
        return
    c.executions += int(so.split()[1])
    c.validate('wide', 'Trace_Stream', 'Trace_Stream.cfg', out, canary=wide_canary, shard_bytes=1, show=lambda r: {'text': text_of(r[0][:300]) + '...', 'bytes': len(r[0]), 'observed': r[1], 'tokens': len(r[2])},
               describe='documents of 60000 to 140000 members, the value compared as the events come in')


def runs_text(rs, most=400):
    return ' '.join('%s*%d' % (json.dumps(text_of(b), ensure_ascii=False), n) if n > 1 else json.dumps(text_of(b), ensure_ascii=False) for b, n in rs)[:most]


def runs_canary(r, k):
    if r[1] != 'ok':
        return None
    if k % 3 == 2 or not r[2]:
        r[0] = r[0] + [[[44], 1]]
        return r
    for t in r[2]:
        if t[0] in ('sr', 'kr') and t[1]:
            t[1][k % len(t[1])][1] += 1 - 2 * (k % 2)
            return r
    r[2] = r[2] + [['null']]
    return r


def runs(c, d, kind, into='value', n=600, model=True):
    """Strings and numbers of up to a few hundred thousand characters."""
    if model:
        conf = c.path('runs.conf')
        tokens = WORDS['string' if kind == 'str' else 'number'][0] if kind != 'both' else toks('"', '\\', '\\u', '0', '1', '.', 'e', ',', '[', ' ', 'a', 'd8', '00', '-')
        ln = c.q(3, 4)
        json.dump({'tokens': tokens, 'len': ln}, open(conf, 'w'))
        c.model('runs<=%d' % ln, 'MC_Runs', env={'CONF': conf}, describe='reading a run at once is reading its bytes one by one, after every word of at most %d tokens over %s' % (ln, [text_of(t) for t in tokens]))
    for k in range(c.q(1, 4)):
        out = c.path('runs_%s_%d.ndjson' % (into, k))
        so = c.run([d + '/text', 'runs', '--kind', kind, '--into', into, '--seed', str(c.seed * 100 + k), '--n', str(c.q(n, 3 * n)), '--bytes', str(c.q(40000000, 120000000)), '--out', out], out)
        if so is False:
            continue
        c.executions += int(so.split()[1])
        c.validate('runs-%s-%d' % (into, k), 'Trace_Runs', 'Trace_Runs.cfg', out, canary=runs_canary, shard_bytes=40000, show=lambda r: {'text': runs_text(r[0]), 'observed': r[1], 'value': json.dumps(r[2])[:600]},
                   describe='strings and numbers with parts of up to 131073 repetitions, in several places (%s)' % into)


def wruns_canary(r, k):
    if r[1] != 'ok':
        return None
    j = (k * 7) % len(r[2])
    if k % 2:
        r[2][j][1] += 1
    else:
        r[2][j][0] = [120]
    return r


def write_runs(c, d, n=700):
    for k in range(c.q(1, 4)):
        out = c.path('wruns_%d.ndjson' % k)
        so = c.run([d + '/text', 'wruns', '--seed', str(c.seed * 100 + k), '--n', str(c.q(n, 3 * n)), '--bytes', str(c.q(40000000, 120000000)), '--out', out], out)
        if so is False:
            continue
        c.executions += int(so.split()[1])
        c.validate('write-runs-%d' % k, 'Trace_RunsSer', 'Trace_RunsSer.cfg', out, canary=wruns_canary, shard_bytes=40000, show=lambda r: {'value': json.dumps(r[0])[:600], 'observed': r[1], 'text': runs_text(r[2])},
                   describe='values with strings of up to a few hundred thousand characters written')


def text_prop(pid, cfg, names, n, nbytes):
    def f(c):
        d = c.build(['text'])
        for name in names:
            words(c, d, name, cfg)
        if pid == 'P01':
            in_contexts(c, d, 'value')
        if pid == 'P02':
            wide(c, d)
        if pid in RUNS:
            runs(c, d, RUNS[pid])
        for k in range(c.q(1, 4)):
            out = c.path('bulk%d.ndjson' % k)
            seed = c.seed * 100 + k
            so = c.run([d + '/text', 'bulk', '--prop', pid, '--seed', str(seed), '--n', str(c.q(n, 4 * n)), '--bytes', str(c.q(nbytes, 4 * nbytes)), '--out', out], out)
            if so is False:
                continue
            c.executions += int(so.split()[1])
            c.validate('bulk-seed%d' % seed, 'Trace_Text', cfg, out, canary=text_canary(cfg != 'Trace_Text_accepts.cfg'), show=show_text,
                       describe='boundary-directed and random texts, well-formed and mutated')
        c.assumptions += ['the recorder reports the outcome of miniserde::json::from_str::<Value> and its value faithfully',
                          'the decimal interval of a double is computed by the recorder (exact big-number arithmetic, cut outward)']
    return f


# --------------------------------------------------------------- typed reads
def build_types(c, groups):
    types = c.path('types.rs')
    r = subprocess.run([sys.executable, os.path.join(VERIF, 'bin', 'gen_types.py'), str(c.seed), '4', types, groups, ''])
    if r.returncode:
        raise ToolError('gen_types failed')
    c.env['MH_TYPES'] = types


def build_typed(c, groups, features=None, target='target', asan=False):
    types = c.path('types.rs')
    r = subprocess.run([sys.executable, os.path.join(VERIF, 'bin', 'gen_types.py'), str(c.seed), str(c.q(24, 60)), types, groups, '|'.join(t for x in TWORDS.get(c.pid, []) for t in [x[1]])])
    if r.returncode:
        raise ToolError('gen_types failed')
    c.env['MH_TYPES'] = types
    return c.build(['typed'], features=features, target=target, asan=asan)


def names_of(conf):
    return json.load(open(conf))['names']


def typed_show(conf):
    names = names_of(conf)

    def show(r):
        return {'type': names[r[0] - 1], 'text': text_of(r[1]), 'observed': r[2], 'value': json.dumps(r[3])[:1500]}
    return show


def typed_canary(r, k):
    t = text_of(r[1])
    if r[2] not in ('ok', 'err') or any(x in t for x in 'eE.') or len(t) > 300:
        return None
    if r[2] == 'ok' and k % 2 and r[3]:
        r[3] = r[3] + [['unit']]
        return r
    if r[2] == 'err':
        r[3] = [['none']]
    return flip(r, k, 2)


TWORDS = {
    'P06': [('ints', 'i8|i16|i32|i64|isize|u8|u16|u32|u64|usize',
             toks('-', '0', '1', '12', '27', '28', '5', '55', '56', '32', '76', '655', '36', '2147483', '64', '429496729', '9223372036854775', '80', '18446744073709551', '6', '.0'), 3, 4),
            ('kinds', 'u8|i8|f64|f32|bool|()|String', toks('null', 'true', 'false', '"', 'a', '1', '-', '.5', '[', ']', '{', '}'), 4, 5)],
    'P07': [('nulls', 'u8|bool|()|Vec<u8>|Vec<Option<u8>>|(Option<u8>, Option<u8>)|Option<Option<Option<bool>>>|Pair|Option<Box<Option<Box<i16>>>>|Box<[u8; 0]>|Option<Value>',
             toks('null', '1', 'true', '[', ']', ',', '{', '}', '"a":'), 6, 7)],
    'P08': [('arity', 'Vec<u8>|Vec<Vec<u8>>|(u8, u8)|(Vec<u8>, Vec<u8>)|[u8; 0]|[u8; 1]|[u8; 2]|[u8; 3]|[[u8; 2]; 2]|[[u8; 0]; 2]|[Vec<u8>; 2]|Vec<()>',
             toks('[', ']', ',', '1', 'null', '{}'), 7, 9)],
    'P09': [('keys', 'BTreeMap<String, u8>|BTreeMap<i8, u8>|BTreeMap<u8, bool>|BTreeMap<Fold, u8>|BTreeMap<char, u8>|HashMap<String, u8>|HashMap<i8, u8>|HashMap<Fold, u8>|BTreeMap<String, Vec<u8>>',
             toks('{', '}', '"a":', '"A":', '"1":', '"01":', '"-1":', ',', '1', 'true', '[1]'), 6, 7)],
    'P10': [('fields', 'Pair|One|OptOnly|NoDeflt|Empty|Close|Node', toks('{', '}', ',', '"a":', '"b":', '"x":', '"v":', '1', 'true', 'null', '[', ']'), 6, 7),
            ('names', 'Names', toks('{"type":1', '}', ',"type":3', ',"match!":2', ',"x":4', ',"y":5', ',"":6', ',"r#type":7', ',"fn":8'), 7, 7)],
    'P11': [('names', 'Ren|Pref|Color|Uno', toks('"', 'A', 'a', 'B', '\\u0041', 'b', 'c', 'G', 'r#', 'null', '[', ']', '0'), 5, 6)],
    'P26': [('skip', 'UnknownOnly|Ig|Pair', toks('{', '}', '[', ']', ',', '"a":', '"zz":', '1', '"', 'null'), 7, 8),
            ('skiplex', 'UnknownOnly|Ig', toks('{"a":1,"s":"","?":', '{"?":[', ']', '}', ',"zz":3', '-', '0', '1', '.', 'e', '"', '\\', '\\u00', '41', 'true', ':'), 6, 7)],
}


def typed_words(c, d, pid, less=0):
    for name, types, tokens, lq, lt in TWORDS.get(pid, []):
        ln = c.q(lq, lt) - less
        if c.pid == 'P25':
            types = '|'.join(t for t in types.split('|') if 'HashMap' not in t)
        tf, out, conf = c.path('tw_%s.json' % name), c.path('tw_%s.ndjson' % name), c.path('tw_%s.conf' % name)
        json.dump(tokens, open(tf, 'w'))
        so = c.run([d + '/typed', 'words', '--types', types, '--tokens', tf, '--len', str(ln), '--out', out, '--conf', conf], out)
        if so is False:
            continue
        c.executions += int(so.split()[1])
        if os.path.getsize(out) == 0 and less:
            continue
        if os.path.getsize(out) == 0:
            c.violation('no word is read into any of the types', {'types': types})
            continue
        c.validate('words-%s<=%d' % (name, ln), 'Trace_Typed', 'Trace_Typed.cfg', out, env={'CONF': conf}, canary=typed_canary, show=typed_show(conf),
                   describe='every word of at most %d tokens over %s that the real reader takes as %s' % (ln, [text_of(t) for t in tokens], types))
        c.model('words-%s<=%d' % (name, ln), 'MC_TypedWords', env={'CONF': conf, 'TRACE': out},
                describe='all those words: typed machines agree with the text, rejections are final, optional and boxed are transparent, what the specification takes the real reader took')


def typed_read(c, d, group, n, nbytes, heavy=False, mode='read'):
    for k in range(c.q(1, 3)):
        out, conf = c.path('%s%d.ndjson' % (mode, k)), c.path('%s%d.conf' % (mode, k))
        seed = c.seed * 100 + k
        so = c.run([d + '/typed', mode, '--group', group, '--seed', str(seed), '--n', str(c.q(n, 4 * n)), '--bytes', str(c.q(nbytes, 4 * nbytes)), '--out', out, '--conf', conf] + (['--heavy', '1'] if heavy else []), out)
        if so is False:
            continue
        c.executions += int(so.split()[1])
        c.validate('%ss-%s-seed%d' % (mode, group, seed), 'Trace_Typed', 'Trace_Typed.cfg', out, env={'CONF': conf}, canary=typed_canary, show=typed_show(conf),
                   describe='any text at all in the place of ignored members' if mode == 'skip' else 'documents generated from the types, fitting and not, read into the types')


WIDE = {'P06': 'W06', 'P07': 'W07', 'P08': 'W08', 'P09': 'W09', 'P10': 'W10', 'P11': 'W11'}


def typed_wide_canary(r, k):
    if r[2] != 'ok' or len(r[1]) > 4000:
        return None
    how = k % 4
    if how == 0:
        r[2], r[3], r[4], r[5] = 'err', [], 0, 0
    elif how == 1:
        r[3].pop()
    elif how == 2:
        r[3].insert(len(r[3]) // 2, ['none'])
    else:
        j = [x for x in range(len(r[3])) if r[3][x][0] == 'b']
        if not j:
            return None
        r[3][j[-1]] = ['b', 1 - r[3][j[-1]][1]]
    return r


def typed_wide(c, d, pid):
    for k in range(c.q(1, 3)):
        out, conf = c.path('wide%d.ndjson' % k), c.path('wide%d.conf' % k)
        seed = c.seed * 100 + k
        so = c.run([d + '/typed', 'wide', '--group', WIDE[pid], '--seed', str(seed), '--most', str(c.q(70000, 140000)), '--out', out, '--conf', conf], out)
        if so is False:
            continue
        c.executions += int(so.split()[1])
        c.validate('wide-%s-seed%d' % (pid, seed), 'Trace_TypedStream', 'Trace_TypedStream.cfg', out, env={'CONF': conf}, canary=typed_wide_canary, show=typed_show(conf),
                   describe='documents with arrays, maps and structs of up to %d members, fitting and not' % c.q(66000, 131100))


def write_canary(r, k):
    if r[2] != 'ok' or len(r[3]) < 2 or len(r[3]) > 400:
        return None
    j = [len(r[3]) - 1, 0, len(r[3]) // 2][k % 3]
    r[3] = r[3][:j] + [32] + r[3][j:]
    if any(t[0] in 'sk' for t in r[1]) and k % 3 == 2:
        r[3] = r[3][:-1] + [44] + r[3][-1:]
    return r


def typed_write(c, d, group, n, nbytes, seeds=1):
    for k in range(c.q(seeds, 3 * seeds)):
        out, conf = c.path('write%d.ndjson' % k), c.path('write%d.conf' % k)
        seed = c.seed * 100 + k
        so = c.run([d + '/typed', 'write', '--group', group, '--seed', str(seed), '--n', str(c.q(n, 4 * n)), '--bytes', str(c.q(nbytes, 4 * nbytes)), '--out', out, '--conf', conf], out)
        if so is False:
            continue
        c.executions += int(so.split()[1])
        names = names_of(conf)
        c.validate('writes-%s-seed%d' % (group, seed), 'Trace_Ser', 'Trace_Ser_write.cfg', out, env={'CONF': conf}, canary=write_canary,
                   show=lambda r: {'type': names[r[0] - 1], 'value': json.dumps(r[1])[:1500], 'observed': r[2], 'text': text_of(r[3])},
                   describe='values generated from the types, written')


def round_canary(r, k):
    if r[2] != 'ok' or len(r[4]) > 400 or not r[3]:
        return None
    if k % 2:
        r[2], r[3] = 'err', []
    else:
        r[3] = r[3] + [['null']]
    return r


def typed_round(c, d, group, n, nbytes):
    for k in range(c.q(1, 3)):
        out, conf = c.path('round%d.ndjson' % k), c.path('round%d.conf' % k)
        seed = c.seed * 100 + k
        so = c.run([d + '/typed', 'round', '--group', group, '--seed', str(seed), '--n', str(c.q(n, 4 * n)), '--bytes', str(c.q(nbytes, 4 * nbytes)), '--out', out, '--conf', conf], out)
        if so is False:
            continue
        c.executions += int(so.split()[1])
        names = names_of(conf)
        c.validate('round-%s-seed%d' % (group, seed), 'Trace_Ser', 'Trace_Ser_round.cfg', out, env={'CONF': conf}, canary=round_canary,
                   show=lambda r: {'type': names[r[0] - 1], 'before': json.dumps(r[1])[:1500], 'observed': r[2], 'after': json.dumps(r[3])[:1500], 'text': text_of(r[4])},
                   describe='values written, read back and written again')


def typed_prop(pid, read=None, write=None, rnd=None):
    def f(c):
        g = ','.join([pid] + [x[0] for x in (read, write, rnd) if x])
        d = build_typed(c, 'all' if 'all' in g.split(',') else g + (',' + WIDE[pid] if pid in WIDE else ''))
        typed_words(c, d, pid)
        if pid in WIDE:
            typed_wide(c, d, pid)
        if read:
            typed_read(c, d, *read)
        if write:
            typed_write(c, d, *write)
        if rnd:
            typed_round(c, d, *rnd)
        c.assumptions += ['the recorder renders Rust values of the modelled types faithfully as tokens']
    return f


# ------------------------------------------------------- callbacks and drops
def show_session(r):
    if r[0] == 't':
        return {'kind': 't', 'written': text_of(r[1]), 'value': json.dumps(r[2])[:1500]}
    d = {'kind': r[0], 'plan': r[2], 'fault': [r[3], {0: 'none', 1: 'error', 2: 'panic'}[r[4]]], 'calls': json.dumps(r[5])[:3000], 'outcome': r[6]} if r[0] != 'v' else {'kind': 'v', 'outcome': r[2], 'value': json.dumps(r[3])[:1500]}
    if r[0] == 'w':
        d['value'] = json.dumps(r[1])[:1500]
    else:
        d['text'] = text_of(r[1])
    return d


def show_sessions(r):
    return {'sessions': [show_session(x) for x in r[0]], 'order_of_callbacks': r[1], 'schedule': r[2]}


def drive_canary(r, k):
    log = r[5]
    if len(log) < 3 or len(log) > 300 or any(e[0] == 'float' for e in log):
        return None
    # of a malformed document any prefix of the calls is fine: tamper only with the rest
    how = k % 5
    if how == 2 and r[6] != 'ok':
        how = 3
    if how == 0:
        if r[6] == 'err' and r[4] != 1:
            return None
        del log[len(log) // 2]
    elif how == 1:
        log.append(log[-1])
    elif how == 2:
        j = [x for x in range(len(log) - 1) if log[x] != log[x + 1]]
        if not j or r[6] != 'ok':
            return None
        log[j[0]], log[j[0] + 1] = log[j[0] + 1], log[j[0]]
    elif how == 3:
        r[6] = {'ok': 'err', 'err': 'ok', 'panic': 'ok'}[r[6]]
    else:
        if log[-1][0] != 'drop':
            return None
        log.pop()
    return r


DTOKENS = toks('[', ']', '{', '}', ',', '"a":', '1', 'null')
DPLANS = [[0], [0, 3, 4, 5, 6], [0, 1, 2], [4, 0, 6], [3, 3, 5]]


def drive(c, d, mode, ln, n, nbytes, k=0, plans=None):
    tf, pf = c.path('tokens.json'), c.path('plans.json')
    json.dump(DTOKENS, open(tf, 'w'))
    json.dump(plans or DPLANS[:c.q(3, 5)], open(pf, 'w'))
    out = c.path('%s%d.ndjson' % (mode, k))
    cmd = [d + '/drv', mode, '--out', out, '--seed', str(c.seed * 100 + k), '--n', str(n), '--bytes', str(nbytes), '--tokens', tf, '--len', str(ln), '--plans', pf, '--heavy', str(int(c.thorough))]
    so = c.run(cmd, out)
    if so is False:
        return
    c.executions += int(so.split()[1])
    what = {'words': 'every text of at most %d tokens, read by probes, all calls and drops' % ln,
            'faults': 'every well-formed text of at most %d tokens, an error and a panic at every call' % ln,
            'bulk': 'random documents and plans', 'ignore': 'random documents, many places ignored', 'bulkfaults': 'random documents and plans, errors and panics at random calls',
            'widereads': 'very wide and very deep documents, whole, malformed at the end, and failing at a call far in', 'widewrites': 'very wide values, whole and panicking at a call far in',
            'writes': 'values built from probes: every shape of few nodes with a panic at every call, and random ones'}[mode]
    if mode.startswith('wide'):
        kind = 'Driver' if mode == 'widereads' else 'Writer'
        c.validate('%s-%d' % (mode, k), 'Trace_' + kind, 'Trace_%sStream.cfg' % kind, out, canary=drive_canary, show=show_session, describe=what + '; calls compared while they are made')
    elif mode == 'writes':
        c.validate('%s-%d' % (mode, k), 'Trace_Writer', 'Trace_Writer.cfg', out, canary=drive_canary, show=show_session, describe=what)
    else:
        c.validate('%s-%d' % (mode, k), 'Trace_Driver', 'Trace_Driver.cfg', out, canary=drive_canary, show=show_session, describe=what)
    if c.thorough and mode in ('words', 'faults', 'writes'):
        kind = 'Writer' if mode == 'writes' else 'Driver'
        c.validate('%s-%d-agree' % (mode, k), 'Trace_' + kind, 'Trace_%sAgree.cfg' % kind, out, show=show_session, describe='the judgement of wide documents agrees with the judgement of these')


def asan_build(c, bins, types=True):
    if 'MH_TYPES' not in c.env:
        build_types(c, 'std')
    return c.build(bins, asan=True, target='target-asan')


ASAN_ENV = {'ASAN_OPTIONS': 'detect_leaks=0:abort_on_error=0:exitcode=134:allocator_may_return_null=1'}


def p14(c):
    build_types(c, 'std')
    d = c.build(['drv'])
    drive(c, d, 'words', c.q(5, 6), 0, 0)
    conf = c.path('mc.conf')
    json.dump({'tokens': DTOKENS, 'len': c.q(5, 6), 'plans': DPLANS[:3]}, open(conf, 'w'))
    c.model('reader-and-caller', 'MC_Driver', env={'CONF': conf}, describe='all texts of few tokens, every call failing in turn, unwinding step by step: rules of use, nothing left alive')
    drive(c, d, 'widereads', 0, 0, 0)
    for k in range(c.q(1, 4)):
        drive(c, d, 'bulk', 0, c.q(1500, 5000), c.q(3000000, 12000000), k)
    c.assumptions += ['the probes log the calls made on them faithfully']


def p15(c):
    build_types(c, 'std')
    d = c.build(['drv'])
    drive(c, d, 'faults', c.q(6, 7), 0, 0)
    conf = c.path('mc.conf')
    json.dump({'tokens': DTOKENS, 'len': c.q(5, 6), 'plans': DPLANS[:3]}, open(conf, 'w'))
    c.model('reader-and-caller', 'MC_Driver', env={'CONF': conf}, describe='all texts of few tokens, every call failing in turn, unwinding step by step: rules of use, nothing left alive')
    drive(c, d, 'widereads', 0, 0, 0, k=7)
    for k in range(c.q(1, 4)):
        drive(c, d, 'bulkfaults', 0, c.q(800, 4000), c.q(4000000, 12000000), k)
    c.assumptions += ['the probes log the calls made on them faithfully']


def p26(c):
    typed_prop('P26')(c)
    in_contexts(c, c.build(['text']), 'ignored', None if c.thorough else ('deep', 'wide', 'inside', 'numeric', 'lits'))
    runs(c, c.build(['text']), 'both', 'ignored', model=c.thorough)
    d = c.build(['typed', 'drv'])
    typed_read(c, d, 'P26', 400, 4000000, heavy=True)
    typed_read(c, d, 'P26', c.q(2500, 10000), 3000000, mode='skip')
    drive(c, d, 'words', c.q(5, 6), 0, 0, plans=[[1], [0, 1], [0, 0, 1], [0, 1, 1]])
    for k in range(c.q(1, 4)):
        drive(c, d, 'ignore', 0, c.q(1200, 5000), c.q(2500000, 12000000), k)
    c.assumptions += ['the probes log the calls made on them faithfully']


def p19(c):
    typed_prop('P19', write=('P19', 2500, 2500000))(c)
    write_runs(c, c.build(['text']))


def in_lockstep(c, name, bins, args, describe, env=None):
    """The same recorder in both builds; every record must be the same."""
    outs, before = [], len(c.violations)
    for k, b in enumerate(bins):
        out = c.path('%s.%s' % (name, 'ab'[k]))
        if c.run([b + '/' + args[0]] + args[1:] + ['--out', out, '--conf', out + '.conf'], out) is not False:
            outs.append(out)
    if len(outs) < 2:
        if not outs:  # both die: wrong, but alike
            del c.violations[before:]
        return None
    a, b = [open(o, encoding='utf8').read().split('\n')[:-1] for o in outs]
    while len(a) < len(b):
        a.append('[]')
    while len(b) < len(a):
        b.append('[]')
    # pairs of equal long lines are the bulk: TLC sees them all, cut into modest files
    pf = c.path(name + '.pairs')
    with open(pf, 'w', encoding='utf8') as f:
        for x, y in zip(a, b):
            f.write('[%s,%s]\n' % (x, y))

    def canary(r, k):
        if len(json.dumps(r[1])) > 400:
            return None
        r[1] = r[1][:-1] if k % 2 else r[1] + [0]
        return r
    c.validate('lockstep-' + name, 'Trace_Pair', 'Trace_Pair.cfg', pf, canary=canary, describe=describe + ': each call observed alike in both builds')
    c.executions += len(a)
    return outs[1]


def p25(c):
    c.env['MH_NOSTD'] = '1'
    os.environ['MH_NOSTD'] = '1'
    pat = '|'.join(t for v in TWORDS.values() for x in v for t in x[1].split('|'))
    types = c.path('types.rs')
    if subprocess.run([sys.executable, os.path.join(VERIF, 'bin', 'gen_types.py'), str(c.seed), str(c.q(24, 60)), types, 'all,' + ','.join(WIDE.values()), pat]).returncode:
        raise ToolError('gen_types failed')
    c.env['MH_TYPES'] = types
    all_bins = ['text', 'typed', 'drv']
    with_std = c.build(all_bins)
    try:
        d = c.build(all_bins, features='', target='target-nostd')
    except ToolError as e:
        c.violation('the library does not build without std, though it does with it', {'log': str(e)[-6000:]})
        raise Stop()
    both = [with_std, d]
    for name, (tokens, lq, lt) in WORDS.items():
        tf = c.path('w_%s.json' % name)
        json.dump(tokens, open(tf, 'w'))
        ln = c.q(lq, lt)
        in_lockstep(c, 'words-' + name, both, ['text', 'words', '--tokens', tf, '--len', str(ln)], 'every accepted word of at most %d tokens over %s' % (ln, [text_of(t) for t in tokens]))
    for pid in TWORDS:
        for name, types, tokens, lq, lt in TWORDS[pid]:
            tf = c.path('tw_%s_%s.json' % (pid, name))
            json.dump(tokens, open(tf, 'w'))
            types = '|'.join(t for t in types.split('|') if 'HashMap' not in t)
            ln = c.q(lq - 1 if lq > 6 and name != 'names' else lq, lt)
            in_lockstep(c, 'typedwords-%s-%s' % (pid, name), both, ['typed', 'words', '--types', types, '--tokens', tf, '--len', str(ln)], 'every word of at most %d tokens over %s read as %s' % (ln, [text_of(t) for t in tokens], types))
    seed = str(c.seed * 100 + 25)
    for prop in ('P01', 'P02', 'P03', 'P04', 'P05'):
        if prop in RUNS:
            in_lockstep(c, 'runs-' + prop, both, ['text', 'runs', '--kind', RUNS[prop], '--seed', seed, '--n', str(c.q(400, 2000)), '--bytes', '40000000'], 'long strings and numbers')
        in_lockstep(c, 'text-' + prop, both, ['text', 'bulk', '--prop', prop, '--seed', seed, '--n', str(c.q(4000, 20000)), '--bytes', str(c.q(1500000, 6000000))], 'texts of ' + prop)
    in_lockstep(c, 'wruns', both, ['text', 'wruns', '--seed', seed, '--n', str(c.q(400, 2000)), '--bytes', '40000000'], 'long strings written')
    for mode, n, nb in (('read', c.q(60, 200), c.q(5000000, 20000000)), ('write', c.q(25, 100), c.q(3000000, 16000000)), ('round', c.q(25, 100), c.q(5000000, 20000000))):
        in_lockstep(c, 'typed-' + mode, both, ['typed', mode, '--group', 'all', '--seed', seed, '--n', str(n), '--bytes', str(nb)], 'typed ' + mode)
    in_lockstep(c, 'typed-wide', both, ['typed', 'wide', '--group', ','.join(WIDE.values()), '--seed', seed, '--most', str(c.q(12000, 70000))], 'wide documents')
    in_lockstep(c, 'typed-wider', both, ['typed', 'wide', '--group', 'W06,W07', '--seed', seed, '--most', str(c.q(70000, 140000))], 'very wide documents')
    for mode in ('bulk', 'bulkfaults', 'writes', 'ignore'):
        in_lockstep(c, 'drv-' + mode, both, ['drv', mode, '--seed', seed, '--n', str(c.q(600, 4000)), '--bytes', str(c.q(2000000, 9000000))], 'callbacks, ' + mode)
    # the differences that are allowed must be the only ones: what std adds is there
    r, log = c.build(['stdonly'], fatal=False)
    if r is None:
        c.violation('what only the std build offers is missing from it', {'log': log[-4000:]})
    c.assumptions += ['the recorders of both builds are the same program but for the feature']


def stack_canary(r, k):
    runs = r[4]
    j = [len(runs) - 1, len(runs) - 2][k % 2]
    if k % 3 == 2 and runs[j][3]:
        runs[j][3][0][2] += 20000
    elif k % 3 == 1:
        runs[j][1] = {'ok': 'err', 'err': 'ok', 'panic': 'ok'}[runs[j][1]]
    else:
        runs[j][2] += 5000
    return r


def p22(c):
    d = c.build(['stk'])
    conf = c.path('mc.conf')
    json.dump({'len': c.q(5, 6)}, open(conf, 'w'))
    mc = c.pool.submit(c.model, 'two-stacks', 'MC_NativeStack', env={'CONF': conf}, workers=2, describe='all values of few nodes read, written and destroyed call by call, failing anywhere: which frames can be on the native stack')
    parts = 21
    depths = c.q('8,64,1000,30000', '8,64,1000,30000,300000')
    outs = [c.path('stk%d.ndjson' % k) for k in range(parts)]

    def one(k):
        return c.run([d + '/stk', '--depths', depths, '--stack', c.q('64', '192'), '--seed', str(c.seed), '--part', str(k), '--parts', str(parts), '--out', outs[k]], outs[k], timeout=800)
    from concurrent.futures import ThreadPoolExecutor
    with ThreadPoolExecutor(7) as ex:
        res = list(ex.map(one, range(parts)))
    mc.result()
    whole = c.path('stk.ndjson')
    with open(whole, 'w', encoding='utf8') as f:
        for o, r in zip(outs, res):
            if r is not False:
                f.write(open(o, encoding='utf8').read())
                c.executions += int(r.split()[1])
    if os.path.getsize(whole):
        c.validate('measurements', 'Trace_Stack', 'Trace_Stack.cfg', whole, canary=stack_canary, show=lambda r: {'operation': r[0], 'target': r[1], 'shape': r[2], 'ending': r[3], 'depth, outcome, bytes': [x[:3] for x in r[4]]},
                   describe='reads, writes and destructions at depths %s: the most native stack used, and its extent at every callback' % depths)
    c.assumptions += ['a stack word that stays zero was not used', 'the build measured (optimisation level 1) is representative of others']


def own_canary(r, k):
    log, held = r[5], r[6]
    died = [n for n, e in enumerate(log) if e[0] == 2]
    if r[4] == 'drop':
        if died:
            log.insert(died[-1] + 1, list(log[died[-1]]))
            return r
        return None
    if k % 4 == 0 and died:
        log.pop(died[-1])            # a value that is never destroyed
    elif k % 4 == 1 and died:
        log.append(list(log[died[0]]))   # destroyed twice
    elif k % 4 == 2 and held:
        held.pop()                   # alive without being in the result
    else:
        r[8] = 1                     # memory not released
    return r


def store_canary(r, k):
    if k % 3 == 0:
        r[2] = 1
        return r
    if len(r[0][-1]) == 1:
        return None
    if k % 3 == 1:
        r[1][0] = r[1][0] + [['null']]
        return r
    r[0][-1][3] = [['s', [1]]]
    return r


def show_store(r):
    return {'operations <<code, r, s, a, b, path>> (Store.tla)': [x[0] for x in r[0]], 'last step': r[0][-1][1:] if r[0] else None, 'registers': r[1], 'blocks': r[2], 'bytes': r[3], 'outcome': r[4]}


def p24(c):
    build_types(c, 'std')
    d = c.build(['store'])
    conf, hf, out = c.path('store.conf'), c.path('store.hist'), c.path('store-replay.ndjson')
    nodes = c.q(3, 4)
    c.run([d + '/store', 'conf', '--nodes', str(nodes), '--out', conf], conf)
    cf = json.load(open(conf))
    cf['few'] = c.q([0, 16, 8, 9], [0, 16, 8, 9])
    json.dump(cf, open(conf, 'w'))
    got = c.behaviours('every operation on every small store', 'MC_Store', 'MC_Store.cfg', {'CONF': conf}, 'HIST', timeout=800,
                       describe='two registers holding values of at most %d nodes together: a history to every transition' % nodes)
    with open(hf, 'w') as f:
        for g in got:
            f.write(json.dumps(g, separators=(',', ':')) + '\n')
    so = c.run([d + '/store', 'replay', '--hist', hf, '--out', out], out)
    if so is not False:
        c.executions += int(so.split()[1])
        c.validate('replayed', 'Trace_Store', 'Trace_Store.cfg', out, env={'CONF': conf}, canary=store_canary, show=show_store, describe='the generated histories replayed with the real containers: result of the last operation, final contents, allocator balance')
    for k in range(c.q(1, 4)):
        out = c.path('store%d.ndjson' % k)
        so = c.run([d + '/store', 'random', '--seed', str(c.seed * 10 + k), '--n', str(c.q(2500, 12000)), '--steps', str(c.q(30, 60)), '--out', out], out)
        if so is not False:
            c.executions += int(so.split()[1])
            c.validate('random-%d' % k, 'Trace_Store', 'Trace_Store.cfg', out, env={'CONF': conf}, canary=store_canary, show=show_store, describe='random histories over three registers of nested values, every step looked at')
        out = c.path('storebig%d.ndjson' % k)
        so = c.run([d + '/store', 'big', '--seed', str(c.seed * 10 + k), '--n', str(c.q(120, 400)), '--steps', str(c.q(25, 40)), '--out', out], out)
        if so is not False:
            c.executions += int(so.split()[1])
            c.validate('big-%d' % k, 'Trace_Store', 'Trace_Store.cfg', out, env={'CONF': conf}, canary=store_canary, show=show_store, describe='histories over containers of up to a thousand members')
    c.assumptions += ['the recorder reports the contents of the containers faithfully, through their references', 'the checking allocator sees every allocation of the containers']


ON_THE_ITEM = '#[serde(...)] on the struct or enum itself is silently ignored'


def shape_canary(r, k):
    t, ok, names = r[0], r[1], r[2]
    if t[3] >= 4:
        return None
    if k % 3 == 0:
        r[1] = 1 - ok
    elif not ok or not names:
        return None
    elif k % 3 == 1:
        names[-1] = names[-1] % 30 + 1
    else:
        names.pop()
    return r


def show_shape(r):
    import derive_shapes
    return {'item': derive_shapes.render(r[0])[0], 'compiled': bool(r[1]), 'names': [derive_shapes.POOL[k - 1] if k > 0 else k for k in r[2]], 'first error': r[4]}


def p13(c):
    conf = c.path('derive.conf')
    jobs = [('small', {'weight': c.q(2, 3), 'plain': 2, 'mixed': 2}, None, '2021', 'every item of at most %d features' % c.q(2, 3)),
            ('large', {'weight': c.q(7, 9), 'plain': c.q(4, 6), 'mixed': 9}, c.q(250, 3000), '2021', 'random items of many features')]
    if c.thorough:
        for ed in ('2018', '2024'):
            jobs.append(('edition' + ed, {'weight': 2, 'plain': 2, 'mixed': 2}, None, ed, 'every item of at most 2 features, edition ' + ed))
    ignored = 0
    for name, cf, sim, edition, what in jobs:
        cf['known'] = int(ON_THE_ITEM in c.known)
        json.dump(cf, open(conf, 'w'))
        got = c.behaviours(name, 'MC_Derive', 'MC_Derive.cfg', {'CONF': conf}, 'ITEM', simulate=sim, timeout=800, describe=what)
        if sim:  # the walks pass by many more
            n = c.q(3000, 45000)
            got = [x for v in (0, 1) for x in (lambda q: c.rnd.sample(q, min(len(q), n)))([g for g in got if g[0] == v])]
        items, out = c.path(name + '.items'), c.path(name + '.ndjson')
        with open(items, 'w') as f:
            for g in got:
                f.write(json.dumps(g, separators=(',', ':')) + '\n')
        r = subprocess.run([sys.executable, os.path.join(VERIF, 'bin', 'derive_shapes.py'), items, out, '--repo', REPO, '--dir', c.path('shapes'), '--target', c.path('shapes-target'),
                            '--edition', edition, '--shards', '8'], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        if r.returncode:
            raise ToolError('items could not be compiled:\n' + r.stdout.decode('utf8', 'replace')[-6000:])
        c.log('compiled', name, r.stdout.decode().strip())
        c.executions += len(got)
        c.validate(name, 'Trace_Derive', 'Trace_Derive.cfg', out, env={'CONF': conf}, canary=shape_canary, show=show_shape,
                   describe=what + ': whether the compiler takes it with the derive, and the member names the compiled code knows')
        if cf['known']:
            for l in open(out, encoding='utf8'):
                x = json.loads(l)
                ignored += x[0][3] >= 4 and x[1]
    if ignored:
        c.violation(ON_THE_ITEM, {'items': ignored})
    c.assumptions += ['rustc reports an error within the item that causes it']


def p16(c):
    build_types(c, 'std')
    d = c.build(['own'])
    mc = c.pool.submit(c.model, 'builders', 'Builders', c.q('MC_Builders_quick.cfg', 'MC_Builders.cfg'), {}, 4, 8000, 800,
                       'values passed between builders, with a failure at any point: one owner each, none lost, none left')
    parts = 8
    outs = [c.path('own%d.ndjson' % k) for k in range(parts)]
    confs = [c.path('own%d.conf' % k) for k in range(parts)]

    def one(k):
        return c.run([d + '/own', '--seed', str(c.seed), '--n', str(c.q(50, 300)), '--words', str(c.q(7, 8)), '--bytes', str(c.q(6000000, 40000000)),
                      '--part', str(k), '--parts', str(parts), '--out', outs[k], '--conf', confs[k]], outs[k], timeout=800)
    from concurrent.futures import ThreadPoolExecutor
    with ThreadPoolExecutor(8) as ex:
        res = list(ex.map(one, range(parts)))
    whole = c.path('own.ndjson')
    with open(whole, 'w', encoding='utf8') as f:
        for o, r in zip(outs, res):
            if r is not False:
                f.write(open(o, encoding='utf8').read())
                c.executions += int(r.split()[1])
    good = [k for k in range(parts) if res[k] is not False]
    mc.result()
    if good and os.path.getsize(whole):
        names = names_of(confs[good[0]])
        c.validate('histories', 'Trace_Own', 'Trace_Own.cfg', whole, env={'CONF': confs[good[0]]}, canary=own_canary,
                   show=lambda r: {'type': names[r[0] - 1], 'text': text_of(r[1]), 'outcome': r[2], 'fault': r[4], 'log (1 born 2 died 3 died again 4 fault 5 return)': r[5], 'held': r[6], 'blocks': r[8], 'bytes': r[9]},
                   describe='births and deaths of all tracked values and the allocator balance, over all small texts and larger ones, cut anywhere, with an error, a panic or a panicking destructor at every call')
    if c.thorough:
        sanitized(c)
    c.assumptions += ['tracked values report their births and deaths faithfully', 'the counting allocator sees every allocation of the reader']


def sanitized(c):
    """The typed reads once more under AddressSanitizer: it must not object."""
    d = asan_build(c, ['typed'])
    out, conf = c.path('asan.ndjson'), c.path('asan.conf')
    so = c.run([d + '/typed', 'read', '--seed', str(c.seed), '--n', '120', '--bytes', '2000000', '--out', out, '--conf', conf], out, env=ASAN_ENV, mem_gb=0, timeout=800)
    if so is not False:
        c.executions += int(so.split()[1])
        c.validate('sanitized', 'Trace_Typed', 'Trace_Typed.cfg', out, env={'CONF': conf}, canary=typed_canary, show=typed_show(conf), describe='typed reads under AddressSanitizer')


def p18(c):
    build_types(c, 'std')
    d = c.build(['drv'])
    conf = c.path('mc.conf')
    json.dump({'len': c.q(5, 6), 'plans': [[0], [0, 1, 2, 3, 4], [4, 2, 3]]}, open(conf, 'w'))
    c.model('writer-and-caller', 'MC_Writer', env={'CONF': conf}, describe='all values of few nodes, every call panicking in turn, unwinding step by step')
    drive(c, d, 'widewrites', 0, 0, 0)
    for k in range(c.q(1, 4)):
        drive(c, d, 'writes', 0, c.q(900, 4000), c.q(4000000, 12000000), k)
    c.assumptions += ['the probes log the calls made on them faithfully']


# ------------------------------------------------ overlapping and nested calls
def R(text, plan=(0,), k=0, mode=0, nest=()):
    return ['r', list(text.encode()), list(plan), k, mode, [list(x) for x in nest]]


def V(text):
    return ['v', list(text.encode()), [0], 0, 0, []]


def W(flat, plan=(0,), k=0, mode=0, nest=()):
    return ['w', flat, list(plan), k, mode, [list(x) for x in nest]]


def bs(x):
    return list(x.encode())


SER1 = [['a', 2], ['s', bs('x\n')], ['null']]
SER2 = [['o', 1], ['k', bs('k\t')], ['a', 1], ['u', [1]]]
SMALL_TEAMS = [
    [R('[1,"\\u0041"]'), R('{"\\n":[]}')],
    [R('["a\\tb"]', nest=[(3, [R('["\\u00e9zzzzzzzz"]')])]), W(SER1)],
    [R('{"\\n":1}', nest=[(2, [V('{"q\\n":"\\u0042\\n"}')])]), R('{"\\t":2}', nest=[(2, [W(SER2)])])],
    [R('[[1],2]', k=4, mode=2), R('[[3],4]', k=3, mode=1)],
    [W(SER2, k=4, mode=2), W(SER1)],
    [R('[{"z":[1]}]', plan=[0, 1]), R('[{"z":[1]}]', plan=[0, 1])],
    [R('[1]'), W([['a', 1], ['null']]), R('"\\n"'), R('[]')],
]
BIG_TEAMS = [
    [R('{"a":[1,{"b":null}],"c":"\\u0041x"}', nest=[(4, [W(SER2), R('[[1]]', k=3, mode=2)])]), R('[[["\\n"]]]'), W(SER1 + []), R('[[1,2],[3]]', plan=[0, 3, 4], k=6, mode=1)],
    [R('{"x":{"y":[1,2]},"z":[]}', plan=[0, 1]), R('[{"x":1},{"y":[2]}]', plan=[0, 1, 2]), R('{"x":{"y":[1,2]},"z":[]}', plan=[1, 0])],
    [W(SER2, nest=[(2, [R('["\\n\\n"]')])]), W(SER1, nest=[(3, [V('[1,{"a\\n":2}]'), V('[1,')])]), R('["\\\\","\\/"]', nest=[(3, [R('"\\r\\r\\r"')])])],
]


def sessions_canary(r, k):
    for x in r[0]:
        if x[0] == 'r' and x[6] == 'ok' and 2 <= len(x[5]) < 200 and not any(e[0] == 'float' for e in x[5]):
            if k % 2:
                x[5].pop(0)
            else:
                x[6] = 'err'
            return r
        if x[0] == 'v' and x[2] == 'ok' and x[3] and k % 2:
            x[2], x[3] = 'err', []
            return r
        if x[0] == 't' and x[2] and x[2][0][0] == 'a' and not k % 2:
            x[2][0][1] += 1
            return r
    return None


def p23(c):
    build_types(c, 'std')
    d = c.build(['sess'])
    for name, teams, sim in (('all-schedules', SMALL_TEAMS, None), ('random-schedules', BIG_TEAMS, c.q(600, 4000))):
        conf, sf, out = c.path(name + '.conf'), c.path(name + '.scheds'), c.path(name + '.ndjson')
        with open(conf, 'w') as f:
            for t in teams:
                f.write(json.dumps(t, separators=(',', ':')) + '\n')
        got = c.behaviours(name, 'MC_Sessions', 'MC_Sessions.cfg', {'CONF': conf}, 'SCHED', simulate=sim, describe='threads taking turns callback by callback, with calls nested in callbacks')
        with open(sf, 'w') as f:
            for g in got:
                f.write(json.dumps([g[0], g[1:]], separators=(',', ':')) + '\n')
        so = c.run([d + '/sess', 'sched', '--jobs', conf, '--scheds', sf, '--out', out], out)
        if so is not False:
            c.executions += int(so.split()[1])
            c.validate('replayed-' + name, 'Trace_Sessions', 'Trace_Sessions.cfg', out, canary=sessions_canary, show=show_sessions, describe='the schedules of ' + name + ' replayed with real threads')
    for mode, n, nb in (('history', c.q(400, 2000), c.q(1500000, 6000000)), ('nested', c.q(800, 3000), c.q(1500000, 6000000)), ('bursts', c.q(20000, 300000), 0), ('crowd', c.q(160, 400), 0), ('free', c.q(200, 1500), c.q(1000000, 6000000)), ('race', c.q(150000, 1500000), 0)):
        out = c.path(mode + '.ndjson')
        so = c.run([d + '/sess', mode, '--seed', str(c.seed), '--n', str(n), '--bytes', str(nb), '--out', out], out)
        if so is False:
            continue
        c.executions += int(so.split()[1])
        c.validate(mode, 'Trace_Sessions', 'Trace_Sessions.cfg', out, canary=sessions_canary, show=show_sessions,
                   describe={'history': 'sequences of calls on one thread, succeeding, failing and panicking', 'nested': 'calls made inside callbacks, up to three deep',
                             'crowd': 'up to %d calls in progress at once, nested in each other and on threads' % n, 'bursts': '%d calls of one kind, then recorded ones' % n, 'free': 'six threads running freely', 'race': 'eight threads reading and writing %d times each without a pause' % n}[mode])
    c.assumptions += ['the probes log the calls made on them faithfully', 'threads interleave at callbacks; finer interleavings are sampled by the free-running modes only']


TABLE = {
    'P01': text_prop('P01', 'Trace_Text_accepts.cfg', ['struct', 'number', 'string', 'literal', 'bytes'], 9000, 2500000),
    'P02': text_prop('P02', 'Trace_Text_denotes.cfg', ['struct', 'members'], 4000, 2500000),
    'P03': text_prop('P03', 'Trace_Text_denotes.cfg', ['string', 'hex'], 9000, 2500000),
    'P04': text_prop('P04', 'Trace_Text_denotes.cfg', ['digits', 'number'], 12000, 2500000),
    'P05': text_prop('P05', 'Trace_Text_denotes.cfg', ['floats', 'number'], 12000, 2500000),
    'P06': typed_prop('P06', read=('P06', 700, 2000000)),
    'P07': typed_prop('P07', read=('P07', 90, 2000000), write=('P07', 60, 1500000)),
    'P08': typed_prop('P08', read=('P08', 130, 2500000)),
    'P09': typed_prop('P09', read=('P09', 200, 2500000), write=('P09', 80, 1500000)),
    'P10': typed_prop('P10', read=('P10', 150, 3000000)),
    'P11': typed_prop('P11', read=('P11', 500, 2000000), write=('P11', 300, 800000)),
    'P12': typed_prop('P12', write=('P12', 150, 3000000)),
    'P14': p14,
    'P15': p15,
    'P18': p18,
    'P23': p23,
    'P22': p22,
    'P25': p25,
    'P26': p26,
    'P16': p16,
    'P24': p24,
    'P13': p13,
    'P17': typed_prop('P17', write=('P17,P08,P09,P07,P06', 60, 5000000)),
    'P19': p19,
    'P20': typed_prop('P20', write=('P20', 1500, 2500000)),
    'P21': typed_prop('P21', rnd=('all', 40, 8000000)),
}

if __name__ == '__main__':
    main(TABLE)
