"""JSON strings decode to exactly the denoted characters, in every width, or are refused."""
from jsonlib import *

T8 = ('s8', 's8u')
ONE = {'c8': 0xff, 'c8u': 0xff, 'c16': 0xffff, 'c32': 0x7fffffff, 'cw': 0x7fffffff}


def units(xs):
    return ','.join('%x' % u for u in xs) or '-'


def want(target, m, n, s):
    """expected result: text of an 'ok', or None for a refusal"""
    if m != 'done' or not s:
        return None
    u8, u16, cs = s
    if target in T8:
        return 'ok %d %s' % (n, units(u8))
    if target == 's16':
        return 'ok %d %s' % (n, units(u16))
    if target in ('s32', 'sw'):
        return 'ok %d %s' % (n, units(cs))
    if len(cs) == 1 and cs[0] <= ONE[target]:
        return 'ok %d %x' % (n, cs[0])
    return None


def wantk(target, m, n, s):
    t = {'k8': 's8', 'k16': 's16', 'k32': 's32', 'kw': 'sw'}[target]
    w = want(t, m, n, s)
    return None if w is None else 'ok %d %s:1' % (n + 4, w.split(' ')[2])


def replay(rep, rows, bins, part, op='S', wrap=lambda x: x, w=want, mask=255):
    docs = list(rows)
    for label, b in bins:
        res = run_cases(b, ['%s\t%d\t%s' % (op, mask, hexs(wrap(x))) for x in docs])
        for x, r in zip(docs, res):
            m, n, s = rows[x]
            for paths, g in split_groups(r):
                if g == 'SKIPPED':
                    continue
                if paths == 'all':
                    rep.violation('string:%s' % x.hex(), '%r (%s): %s' % (x.decode('latin-1'), label, g), {'input_hex': wrap(x).hex(), 'build': label, 'got': g})
                    continue
                for tp in paths.split(','):
                    t, path = tp.split('/')
                    e = w(t, m, n, s)
                    if e is None:
                        ok = g.startswith('err ') and 0 <= int(g.split(' ')[1]) <= (n if m == 'err' and op == 'S' else len(wrap(x)))
                        e = 'a refusal'
                    else:
                        ok = g == e
                    if not ok and len(rep.viol) < 300:
                        rep.violation('string:%s:%s' % (t, x.hex()), '%r (%s, %s): got %s, must be %s' % (wrap(x).decode('latin-1'), label, tp, g, e),
                                      {'input_hex': wrap(x).hex(), 'build': label, 'target': tp, 'expected': e, 'got': g})
        rep.traces += len(docs)
        rep.part(part, documents=len(docs) if label == bins[0][0] else 0, replays=len(docs))
    ok = [x for x in docs if rows[x][0] == 'done']
    rep.part(part, accepted=len(ok))
    if ok:
        x = ok[len(ok) // 2]
        rep.sample({'part': part, 'input': x.decode('latin-1'), 'utf8/utf16/codes': rows[x][2]}, 20)


def rows_of(r):
    return {bytes(x[1]): (x[2], x[3], x[4]) for x in r}


SHORT = [(8, b'b'), (10, b'n'), (34, b'"'), (92, b'\\'), (47, b'/')]
PADS = [0, 13, 14, 15, 16, 17, 30, 31, 32, 47]


def run(rep, tier):
    th = tier == 'thorough'
    bins = list(zip(('c++20', 'c++11'), build_many([dict(source='jstr', std='20'), dict(source='jstr', std='11')])))
    kbins = list(zip(('c++20', 'c++11'), build_many([dict(source='jstr', std='20', defs=('VH_KEYS',)), dict(source='jstr', std='11', defs=('VH_KEYS',))])))
    key = lambda x: b'{' + x + b':1}'
    o = dict(Opt=STD)
    # every byte after every mode of the string machine, at several distances from the beginning (the reader looks at 16 bytes at a time)
    modes = [p for p in MODES if p.startswith(b'"')]
    pre = [b'"' + b'x' * k + p[1:] for p in modes for k in ((0, 15) if not th else PADS)]
    rows = rows_of(tlc('StrGen', dict(o, Prefixes=pre, Tokens=ALLBYTES, MaxTok=1), ['OutStr', 'Sane'], stats=rep.stats))
    replay(rep, rows, bins, 'every byte after every string mode')
    whole = {x: v for x, v in rows.items() if v[0] == 'done' and v[1] == len(x)}
    replay(rep, whole, kbins, 'the same strings as keys', 'K', key, wantk)
    bad = {x: v for x, v in rows.items() if v[0] == 'err' and v[1] < len(x) and b'"' not in x[1:]}
    replay(rep, bad, kbins, 'ill-formed strings as keys', 'K', key, wantk)
    # sequences
    toks = T('"', '\\', '\\u', 'd8', '00', 'DC', '7f', 'a', '\x1f', '\xc3', '\xa9', '\xed', '\xa0', '\x80', '\xf0\x9f', '\\n', 'n')
    rows = rows_of(tlc('StrGen', dict(o, Prefixes=[b'"', b'"0123456789abcde'] if th else [b'"'], Tokens=toks, MaxTok=5 if th else 4), ['OutStr', 'Sane'], stats=rep.stats))
    replay(rep, rows, bins, 'token sequences')
    # placements around the block size
    toks = T('0123456789abcdef', '01234567', 'x', '\\n', '\\u0041', '\\ud83d\\ude00', '\xc3\xa9', '\xf0\x9f\x98\x80', '\xc3', '\\', '"', '\x01')
    rows = rows_of(tlc('StrGen', dict(o, Prefixes=[b'"', b'"0123456789abc'] if th else [b'"0123456'], Tokens=toks, MaxTok=5 if th else 4), ['OutStr', 'Sane'], stats=rep.stats))
    replay(rep, rows, bins, 'long strings')
    # code points
    if th:
        rg = [(a, min(a + 0x1fff, 0x10ffff), 1) for a in range(0, 0x110000, 0x2000)]
    else:
        rg = [(0, 0x2ff, 1), (0x7c0, 0x83f, 1), (0xfe0, 0x101f, 1), (0xd7c0, 0xd83f, 1), (0xdbe0, 0xdc1f, 1), (0xdfe0, 0xe03f, 1), (0xffc0, 0x1003f, 1), (0x10ffc0, 0x10ffff, 1),
              (0x300, 0xffff, 37), (0x10000, 0x10ffff, 401), (0x1ffc0, 0x2003f, 1), (0xfffc0, 0x10003f, 1)]
    for i in range(0, len(rg), 16):
        rows = rows_of(tlc('CodePoints', dict(o, Ranges=rg[i:i + 16]), ['Out'], stats=rep.stats))
        replay(rep, rows, bins, 'code points', mask=255 if not th else 1 | 8)
        if i == 0:
            replay(rep, {x: v for x, v in rows.items() if v[0] == 'done'}, kbins, 'code points in keys', 'K', key, wantk, mask=1 | 4 | 8)
    # padded code points: the block-wise reader sees them at every offset
    sel = [0x22, 0x5c, 0x2f, 8, 10, 0x7f, 0x80, 0x7ff, 0x800, 0xd7ff, 0xe000, 0xffff, 0x10000, 0x10ffff]
    docs = []
    for k in PADS if not th else range(0, 70):
        for c in sel:
            for body in ([chr(c).encode()] if c >= 32 and c not in (34, 92) else []) + [b'\\u%04x' % c if c < 0x10000 else b'\\u%04x\\u%04X' % (0xd800 + ((c - 0x10000) >> 10), 0xdc00 + (c & 0x3ff))] + [b'\\' + x for y, x in SHORT if y == c]:
                docs += [b'"' + b'p' * k + body + b'q' * j + b'"' for j in (0, 1, 17)]
    corpus = ''.join(json.dumps(list(x)) + '\n' for x in docs)
    r = tlc('StrRun', o, ['Out', 'Sane'], files={'corpus.ndjson': corpus}, stats=rep.stats)
    rows = {docs[x[1] - 1]: (x[2], x[3], x[4]) for x in r}
    replay(rep, rows, bins, 'every offset in a block')
    replay(rep, rows, kbins, 'every offset in a block (keys)', 'K', key, wantk, mask=1 | 4 | 8)
    rep.assumptions += ['a single 8-bit character holds a code point up to U+00FF as one byte (what the library documents by its tests)',
                        'key texts longer than the identifier buffer are not used (ids_len_max)']
