"""Decoding does not depend on how or where the bytes are delivered."""
from typedlib import *
from docs import random_json, mutate, suite_files

TYPES = [I32, U8, F64, F32, BOOL, STR, S16, CHR, CSTR, E1, bits(5), chars(6), seq('std::vector', I32), seq('std::list', STR), sarr(I32, 3), tup(I32, STR, BOOL), mp('std::map', STR, I32), mp('std::map', I32, STR),
         mp('std::map', F64, BOOL), opt(I32), uptr(STR), var(I32, STR, seq('std::vector', I32), amb=False), C1, C2, C6, C8, mp('std::map', E1, C1), st('std::set', STR)]
TAILS = [bytes([b]) for b in range(256)] + T('  ', ' ,', '\r\n', '//', '/*', '""', '"a"', '[]', '{}', ':1', ',1', ']]', '}}', '1e', '.5', 'e5', 'null', '\xef\xbb\xbf', '\0\0')
BUILDS = (('c++20', '20', 255, ()), ('c++11', '11', 1 | 4 | 8, ()), ('c++17', '17', 2 | 64, ()))
TBUILDS = (('c++20', '20', 255, ()), ('c++11', '11', 255, ()), ('c++14', '14', 255, ()), ('c++17', '17', 255, ()), ('c++23', '23', 255, ()))


def cross(rep, types, docs, bins, part):
    """what no other property settles (ignored values, further spellings) must still be the same for every source and build"""
    seen = {}
    for label, idx, b in bins:
        res = run_cases(b, ['R\t255\t%s' % hexs(x) for x in docs])
        rep.traces += len(docs)
        for x, r in zip(docs, res):
            for names, got in split_groups(r):
                if names == 'all':
                    if got != 'SKIPPED':
                        rep.violation('crash:%s' % x.hex(), '%r (%s): %s' % (show(x), label, got), {'input_hex': x.hex(), 'build': label, 'got': got})
                    continue
                for nm in names.split(','):
                    if '/' not in nm:
                        continue
                    j, path = nm.split('/')
                    i = idx[int(j)]
                    if path == 'ptr' and ODD.search(x):
                        continue
                    out = got if got.startswith('ok') else 'err' if got.startswith('err') else got
                    a = seen.setdefault((i, x), (out, label, path))
                    if a[0] != out:
                        rep.violation('cross:%s:%s' % (types[i].cpp, x.hex()), '%r into %s: %s via %s (%s) but %s via %s (%s)' % (show(x), types[i].cpp, a[0], a[2], a[1], out, path, label),
                                      {'input_hex': x.hex(), 'type': types[i].cpp, 'one': a, 'other': [out, label, path]})
    rep.part(part, documents=len(docs), compared=len(seen))


def cuts(docs):
    """every prefix: the range ends anywhere"""
    return sorted({d[:k] for d in docs for k in range(len(d) + 1)})


SEEDS = T('[1,2,3]', '"a\\u0041\\ud83d\\ude00\xc3\xa9"', '{"a":12,"ab":"t\\n","b":[1,2],"skip":{"x":["}",{}]}}', '-12.5e+10', 'true', 'null', '{"1":"x","-2":""}', '{"1.5e1":false}', '[3,"s",true]', '"one"', '"01101"', '"abcdef"',
          '{"inner":{"a":1,"skip":"\\""},"li":[{"b":[]}],"d":0.5,"flag":true}', '{"III":{"a":3}}', ' {\n"a" : 1 ,\t"b" :\r[ 5 ] }', '"0123456789abcdef0123456789ABCDEF\\u00e9"', '-"inf"', '"nan"', '{"k\\"1":1,"\xc3\xa9":2}',
          '{"%s":1,"%s":2}' % ('k' * 64, 'k' * 63), '18446744073709551615', '-9223372036854775808', '1.7976931348623157e308', '255', '0', '-0', '{"\\u0061":1}', '{"skip":[1,{"a":"]"}],"a":2}')


def run(rep, tier):
    th = tier == 'thorough'
    rng = random.Random(SEED)
    # dynamic values: every source, every standard, with and without strict numbers
    stds = ('11', '14', '17', '20', '23')
    fl = build_many([dict(source='jnode', std=s, opt='-O0') for s in stds] + [dict(source='jnode', std=s, opt='-O0', defs=('VH_STRICTNUM',)) for s in (stds if th else ('11', '20'))])
    nb = list(zip(['c++' + s for s in stds], fl))
    sb = list(zip(['c++%s strict' % s for s in (stds if th else ('11', '20'))], fl[len(stds):]))
    docs = [random_json(rng) for _ in range(400 if th else 40)]
    docs = [d for d in docs if len(d) < 220]
    longs = [x.encode() for n in (60, 61, 62, 63, 64, 65, 70, 200) for x in ('0.' + '3' * (n - 2), '1' + '0' * (n - 3) + '.5', '[%s]' % ('7' * n), '-0.' + '0' * (n - 4) + '1')]
    docs = cuts(SEEDS + docs) + [d + t for d in SEEDS + docs[:10] for t in TAILS] + [m for d in docs for m in (mutate(rng, d),)] + longs
    docs = list(dict.fromkeys(docs))
    exps = dict(zip(docs, run_machine(rep, STD, docs)))
    replay_node(rep, exps, nb + sb, 'cut anywhere, followed by anything', ops=('N', 'O') if th else ('O',))
    exps = gen(rep, STD, MODES, ALLBYTES, 1)
    replay_node(rep, exps, nb + sb, 'every byte after every mode', ops=('O',))
    # typed targets
    bs = binaries(TYPES, TBUILDS if th else BUILDS, chunk=5)
    docs = cuts(SEEDS) + [d + t for d in SEEDS for t in (TAILS if th else TAILS[::7] + TAILS[256:])]
    docs = list(dict.fromkeys(docs))
    ms = run_typed(rep, TYPES, docs)
    replay_typed(rep, TYPES, ms, bs, 'typed targets', write=False)
    ms = gen_typed(rep, TYPES, T('', '[', '{', '{"a":'), T('"a"', '"1":', '"skip":', '1', '-2', '"x"', '[', ']', '{', '}', ',', 'true', 'null', ' ', '"ab":', '0.5'), 4 if th else 3)
    replay_typed(rep, TYPES, ms, bs, 'typed targets, generated', write=False)
    # what is left open elsewhere
    docs = []
    for v in ('1', '"', '"}"', '"\\""', '"\\', '[', ']', '[]', '[[1],{"a":[2]}]', '{"a":{"b":"]"}}', '["]"]', 'nul', '-', '1.', '"\\\\"', '"\\u"', '"\xff"', '{]}', '[}', '{"a" "b"}', '/*]*/1', '', ' ', '\n', '1 2', "'", '\\', '\\"', '"a"b', '"\x01"', '[1', '{"x":1'):
        for t in ('{"skip":%s}', '{"a":3,"skip":%s}', '{"skip":%s,"a":4}', '{"skip": %s ,"ab":"t"}', '{"skip":%s,"b":[1]}]', '{"inner":{"skip":%s}}', '{"one":{"skip":%s}}'):
            docs += cuts([(t % v).encode('latin-1')])
    docs += [d.encode() + e for d in ('1.5', '1.', '12e1', '-3.0', '1e', '1.e5', '0.1', '00', '01', '-', '+1', '.5', '0x10', '1_', '"inf"', '"-nan"', 'inf', 'nan', 'infinity', '-inf', '"+inf"', '"inf', '1e400', '1e-400', '300.7', '-1.5') for e in (b'', b' ', b',', b']')]
    docs = list(dict.fromkeys(docs))
    cross(rep, TYPES, docs, bs, 'the same from everywhere')
    rep.assumptions += ['numbers longer than the number buffer may be refused where the bytes have to be copied, keys longer than the key buffer likewise']
