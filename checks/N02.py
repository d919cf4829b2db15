"""Equality, order and hash of dynamic values; comparison with C++ values."""
from jsonlib import *
import N01, struct

L, A, G, S = N01.L, N01.A, N01.G, N01.S


def M(*kv):
    return {'k': 'map', 'ks': [k for k, _ in kv], 'e': [v for _, v in kv]}


def note(t):
    if t['k'] == 'map' and t['ks'] and not isinstance(t['ks'][0], str):
        return '{' + ''.join(note(a) + note(b) for a, b in zip(t['ks'], t['e'])) + '}'
    if t['k'] == 'arr':
        return '[' + ''.join(map(note, t['e'])) + ']'
    if t['k'] == 'tag':
        return 't%s;%s' % (t['v'], note(t['e'][0]))
    return N01.note(t)


def rekey(t):
    """keys as trees, text expanded"""
    if t['k'] == 'map':
        return {'k': 'map', 'ks': [L('str', N01.TEXT.get(k, k)) if isinstance(k, str) else rekey(k) for k in t['ks']], 'e': [rekey(x) for x in t['e']]}
    if 'e' in t:
        return dict(t, e=[rekey(x) for x in t['e']])
    return dict(t, v=N01.TEXT.get(t['v'], t['v']))


def dbl(h):
    return struct.unpack('>d', bytes.fromhex(h))[0]


def hexd(d):
    return struct.pack('>d', d).hex()


def number(t):
    return dbl(t['v']) if t['k'] == 'real' else int(t['v'])


INTS = [0, 1, 5, 127, 128, 255, 256, 32767, 65535, 2**31 - 1, 2**31, 2**32 - 1, 2**32, 2**63 - 1]
REALS = [0.0, -0.0, 1.0, -1.0, 0.5, 1.5, 5e-324, -5e-324, 2.2250738585072014e-308, 1.7976931348623157e308, float('inf'), float('-inf'), 0.1, 0.30000000000000004, 0.3, 9007199254740993.0, 16777217.0, 4294967296.0, 5.0]


def leaves(cbor):
    r = [L('null'), L('bool', '0'), L('bool', '1')]
    r += [L('uint', str(x)) for x in INTS + [2**63, 2**64 - 1]]
    r += [L('sint', str(x)) for x in sorted(set(INTS + [-x for x in INTS] + [-2**63, -2**31 - 1]))]
    r += [L('real', hexd(x)) for x in REALS]
    r += [L('str', x.hex()) for x in (b'', b'\0', b'a', b'b', b'ab', b'a\0', b'a\0b', b'\x7f', b'\x80', b'\xff', b'5', b'null', b'a' * 15, b'a' * 16, b'a' * 40)]
    if cbor:
        r += [L('undef')] + [L('sim', str(x)) for x in (0, 1, 5, 19, 32, 127, 128, 255)]
        r += [L('byt', x.hex()) for x in (b'', b'\0', b'a', b'ab', b'\x80', b'\xff', b'a' * 40)]
    return r


def shapes(cbor):
    n, five, s5, t = L('null'), L('uint', '5'), L('sint', '5'), L('str', '61')
    r = [A(), M(), A(A()), A(M()), M((t, A())), M((t, M())), A(n), A(five), A(s5), A(L('real', hexd(5.0))), A(five, n), A(n, five), A(five, five), A(A(five)),
         M((t, five)), M((t, s5)), M((five, t)), M((s5, t)), M((n, n)), M((A(five), t)), M((A(), n), (M(), n)), M((t, n), (L('str', '62'), n)), M((L('str', '62'), n), (t, n)), M((t, n), (five, n)), M((five, n), (t, n)),
         M((M((t, n)), n)), M((L('bool', '0'), five), (L('bool', '1'), five)), M((L('real', hexd(0.0)), t)), M((L('real', hexd(-0.0)), t)), A(L('real', hexd(0.0))), A(L('real', hexd(-0.0))),
         M((t, five), (L('str', '62'), s5)), M((L('str', '62'), s5), (t, five)), M((t, s5), (L('str', '62'), five))]
    if cbor:
        r += [G(x, y) for x in (0, 1, 5, 2**32, 2**64 - 1) for y in (n, five, t)] + [G(5, G(1, n)), G(1, G(5, n)), A(G(5, n)), G(5, A(n)), M((G(5, n), five)), M((L('byt', '61'), n)), M((L('undef'), n)), A(L('byt', '61')), A(L('sim', '5'))]
    return r


def key(t):
    return json.dumps(t, sort_keys=True)


def compare(rep, lang, ordered, builds, trees):
    vals, seen = [], set()
    for t in trees:
        t = rekey(t)
        if key(t) not in seen:
            seen.add(key(t))
            vals.append(t)
    rank = {}
    for k in ('real', 'sint', 'uint', 'sim'):
        xs = sorted(set(number(x) for x in walk(vals) if x['k'] == k))
        rank[k] = {x: i for i, x in enumerate(xs)}

    def full(t):
        return {'k': t['k'], 'v': t.get('v', ''), 'n': rank[t['k']][number(t)] if t['k'] in rank else 0, 'ks': [full(x) for x in t.get('ks', [])], 'e': [full(x) for x in t.get('e', [])]}
    rows, meta = [], []
    line = 'K\t' + '|'.join(map(note, vals))
    for bi, (lab, b) in enumerate(builds):
        r = run_cases(b, [line])[0]
        cells, _, hs = r.partition('|')
        cells, hs = cells.split(), hs.split()
        if len(cells) != len(vals) or len(hs) != len(vals) or any(len(c) != len(vals) for c in cells) or not all(h.isdigit() for h in hs):
            rep.violation('%s:compare' % lab, 'comparison of %d values of %s: %s' % (len(vals), lab, r[:300]), {'build': lab, 'got': r[:3000]})
            continue
        below = [sum(c[j] == '<' for c in cells) for j in range(len(vals))]
        base = len(set(m[0] for m in meta)) + 1
        for i, c in enumerate(cells):
            rows.append([base, i + 1, ['.=<'.find(x) if x in '.=<' else 3 for x in c], [int(h) for h in hs], below[i]])
            meta.append((lab, i))
        rep.traces += len(vals) ** 2
        rep.part('%s pairs' % lab, values=len(vals), pairs=len(vals) ** 2)
    if not rows:
        return
    out = tlc('NodeOrder', dict(Ordered=ordered), ['Out'], files={'values.ndjson': ''.join(json.dumps(full(t)) + '\n' for t in vals), 'rows.ndjson': ''.join(json.dumps(r) + '\n' for r in rows)}, stats=rep.stats)
    if sum(r[0] == 'D' for r in out) != len(rows):
        raise CheckError('not every row was judged')
    for r in sorted(x for x in out if x[0] == 'B'):
        lab, i = meta[r[1] - 1]
        a, b = note(vals[i]), note(vals[r[2] - 1])
        rep.violation('%s:%s:%s:%s' % (lab, r[3], a, b), '%s of dynamic values %s and %s (%s): got %s, hashes in classes %d and %d' % (r[3], a, b, lab, {0: 'neither equal nor less', 1: 'equal', 2: 'less', 3: 'contradictory'}[rows[r[1] - 1][2][r[2] - 1]], rows[r[1] - 1][3][i], rows[r[1] - 1][3][r[2] - 1]),
                      {'build': lab, 'left': a, 'right': b, 'law': r[3]})


def walk(ts):
    for t in ts:
        yield t
        yield from walk(t.get('e', []))
        yield from walk(x for x in t.get('ks', []) if not isinstance(x, str))


def literals(rep, lab, b, trees, ordered):
    """a dynamic value compared with C++ values: equal exactly when it holds that alternative and that value"""
    ts = [rekey(t) for t in trees]
    pairs = [(x, y) for x in ts for y in ts]
    res = run_cases(b, ['L\t%s\t%s' % (note(x), note(y)) for x, y in pairs])
    for (x, y), r in zip(pairs, res):
        if r == 'SKIPPED':
            continue
        eq = x['k'] == y['k'] and (number(x) == number(y) if x['k'] in ('real', 'sint', 'uint', 'sim') else x == y or not ordered and x['k'] == 'map' and sorted(map(key, zip(x['ks'], x['e']))) == sorted(map(key, zip(y['ks'], y['e']))))
        if x['k'] in ('map', 'arr', 'tag') and not eq:
            continue            # judged structurally above
        rep.traces += 1
        if not r or set(r) != {'1' if eq else '0'}:
            rep.violation('%s:literal:%s:%s' % (lab, note(x), note(y)), 'dynamic value %s compared with the C++ value %s (%s): expected %s, got %s' % (note(x), note(y), lab, 'equal' if eq else 'different', r), {'build': lab, 'node': note(x), 'value': note(y), 'got': r})
    rep.part('%s C++ values' % lab, pairs=len(pairs))


TYPES = {'int': 4, 'short': 2, 'schar': 1, 'char': 1, 'uchar': 1, 'long': 8, 'ushort': 2, 'unsigned': 4, 'ulong': 8, 'char16': 2, 'char32': 4, 'wchar': 4, 'bool': 1}


def built(rep, lab, b):
    cs = [(t, v) for t, n in TYPES.items() for v in ((0, 1) if t == 'bool' else (0, 1, 65, 127) + ((-1, -128) if t in ('int', 'short', 'schar', 'long', 'char') else ()))]
    for (t, v), r in zip(cs, run_cases(b, ['B\t%s\t%d' % c for c in cs])):
        p = r.split(' ')
        rep.traces += 1
        kind = 'b' if t == 'bool' else 'i' if t in ('int', 'short', 'schar', 'long') else 'u'
        want = '%s%d;' % (kind, v % 2**64 if kind == 'u' else v)
        if len(p) != 3 or p[0] != want or p[1] != want or p[2] != '1':
            rep.violation('%s:built:%s:%d' % (lab, t, v), 'dynamic value built from %s %d (%s): expected %s, %s, equal to it; got %s' % (t, v, lab, want, want, r), {'build': lab, 'type': t, 'value': v, 'got': r})


def run(rep, tier):
    th = tier == 'thorough'
    groups = [('json', False, [(0, 0, 0, 0, '20'), (0, 0, 0, 0, '11'), (0, 0, 7, 0, '11')]), ('json', True, [(0, 1, 0, 0, '20'), (0, 1, 0, 1, '11')]),
              ('cbor', False, [(1, 0, 0, 0, '20'), (1, 0, 0, 0, '11')]), ('cbor', True, [(1, 1, 0, 0, '20'), (1, 1, 0, 2, '20')])]
    if th:
        groups = [(l, o, bs + [(int(l == 'cbor'), int(o), 0, 0, s) for s in ('14', '17', '23')]) for l, o, bs in groups]
    labs = [N01.cfg(*c) for _, _, bs in groups for c in bs]
    X = [L('uint', '5'), S]
    d = 3 if th else 2

    def trees(lang, ordered):
        h = N01.histories(rep, lang, ordered, [[L('uint', '5'), L('str', '61')]], {'wrp', 'psh', 'set', 'key', 'imb'} | ({'tag'} if lang == 'cbor' else set()), d, vals=[L('sint', '5')], lists=[], maxsize=6, maxpath=1, trees=True)
        return h
    got = parallel([lambda: dict(zip([n for n, _ in labs], build_many([s for _, s in labs])))] + [lambda l=l, o=o: trees(l, o) for l, o, _ in groups], 4)
    bins = got[0]
    jobs = []
    for (lang, ordered, bs), ts in zip(groups, got[1:]):
        cbor = lang == 'cbor'
        ls, sh = leaves(cbor), shapes(cbor)
        cap = 400 if th else 120
        step = max(1, len(ts) // cap)
        bl = [(N01.cfg(*c)[0], bins[N01.cfg(*c)[0]]) for c in bs]
        jobs.append(lambda lang=lang, ordered=ordered, bl=bl, ts=ls + sh + ts[::step]: compare(rep, lang, ordered, bl, ts))
        for lab, b in bl:
            jobs.append(lambda lab=lab, b=b, ts=ls + sh, o=ordered: literals(rep, lab, b, ts, o))
            jobs.append(lambda lab=lab, b=b: built(rep, lab, b))
    parallel(jobs, 4)
    rep.assumptions.append('NaN is not among the values compared (it has no place in an order, as in the language itself)')
