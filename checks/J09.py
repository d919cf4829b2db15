"""Pretty-printing changes only white space, however its input arrives."""
from jsonlib import *

SETTINGS = [(1, 9), (0, 9), (2, 32), (4, 32), (7, 9), (3, 10), (1, 13)]
ALPH_T = {
    # name: (prefixes, tokens, quick tokens, thorough tokens, all laws)
    'structure': (T(''), T('[', ']', '{', '}', ',', ':', '"a"', '1', ' '), 7, 9, False),
    'layout': (T('', '[1,', '{"a":'), T('[', ']', '{', '}', ',', '"":', '2', '\n'), 5, 6, True),
    'strings': (T('"', '["', '{"a":"'), T('"', '\\"', '\\\\', '[', ',', ' ', ':', '\\n', '}'), 5, 6, False),
    'string keys': (T('{"', '[{"'), T('"', '":', '\\"', '\\\\', '{', ',', '\t', "'", '1}'), 5, 6, True),
    'words': (T('', '[', '[-', '{"k":'), T('true', 'null', '-1.5e+3', '0', '\\u0022', '"\\u005c"', ',', ' ', '\r\n', ']', '}'), 4, 5, False),
    'other bytes': (T('["', '"'), T('\xc3\xa9', '\xe2\x80\xa8', '\x7f', "'", ';', '=', '/*', '//', '\\/', '"', ']', '{'), 4, 5, False),
}


def tgen(rep, tab, pad, pre, toks, n, laws):
    r = tlc('TidyGen', dict(Opt=STD, Prefixes=list(pre), Tokens=list(toks), MaxTok=n, Tab=tab, Pad=pad),
            ['Out', 'Depth', 'Same', 'Fixed', 'Only'] + (['Laid'] if laws else []), stats=rep.stats)
    return {bytes(i): bytes(w) for _, i, w in r}


def trun(rep, tab, pad, docs):
    if not docs:
        return {}
    corpus = ''.join(json.dumps(list(x)) + '\n' for x in docs)
    r = tlc('TidyRun', dict(Opt=STD, Tab=tab, Pad=pad), ['Out', 'Same', 'Fixed'], files={'corpus.ndjson': corpus}, stats=rep.stats)
    if len(r) != len(docs):
        raise CheckError('machine run incomplete')
    return {docs[x[1] - 1]: bytes(x[2]) for x in r if len(x) > 2}


def replay(rep, exps, bins, part, tab, pad, seed, ops=('T', 'S', 'B'), most=10 ** 9):
    docs = list(exps)
    if len(docs) > most:
        docs = random.Random(seed).sample(docs, most)
    for label, b in bins:
        for op in ops:
            some = docs if op != 'B' else [x for x in docs if len(exps[x]) < 200]
            res = run_cases(b, ['%s\t%d\t%d\t%s\t%d' % (op, tab, pad, hexs(x), seed + i) for i, x in enumerate(some)])
            bad = 0
            for x, r in zip(some, res):
                want = exps[x].hex() if op != 'B' else 'refused'
                for paths, g in split_groups(r):
                    if g == 'SKIPPED' or g == want:
                        continue
                    bad += 1
                    if bad <= 20:
                        how = paths.split(',')[0]
                        rep.violation('tidy:%s:%d:%d:%s' % (op, tab, pad, x.hex()), '%r indented by %d of %r (%s, %s): expected %s, got %s' % (
                            x.decode('latin-1'), tab, chr(pad), label, how, want[:400], g[:400]),
                            {'input_hex': x.hex(), 'tab': tab, 'pad': pad, 'build': label, 'op': op, 'how': paths, 'expected': want, 'got': g})
            rep.traces += len(some)
    rep.part('%s, %d of %d' % (part, tab, pad), texts=len(docs), replays=len(docs) * len(bins) * len(ops))
    for x in docs[:1]:
        rep.sample({'text': x.decode('latin-1'), 'printed': exps[x].decode('latin-1')})


def run_values(rep, docs, bins, tab, pad):
    got = []
    for label, b in bins:
        for x, r in zip(docs, run_cases(b, ['V\t%d\t%d\t%s' % (tab, pad, hexs(x)) for x in docs])):
            if r in ('none', 'SKIPPED'):
                continue
            if '!' not in r:
                rep.violation('tidy:V:%d:%d:%s' % (tab, pad, x.hex()), 'writing the value of %r (%s): %s' % (x.decode('latin-1'), label, r[:300]), {'input_hex': x.hex(), 'build': label, 'got': r})
                continue
            for one in re.split(r'(?<! )\|(?! )', r):
                plain, low, g = one.split('!')
                got.append((label, x, bytes.fromhex(plain), low, g))
    texts = sorted({p for _, _, p, _, _ in got})
    want = trun(rep, tab, pad, texts)
    bad = 0
    for label, x, plain, low, g in got:
        rep.traces += 1
        if plain not in want:
            continue    # not one JSON text
        w = []
        if low != 'ok':
            w.append('written to too little room: ' + low)
        for paths, s in split_groups(g):
            if s != want[plain].hex():
                w.append('%s: expected %s, got %s' % (paths.split(',')[0], want[plain].hex()[:400], s[:400]))
        if w:
            bad += 1
            if bad <= 20:
                rep.violation('tidy:V:%d:%d:%s' % (tab, pad, plain.hex()), 'the value %r indented by %d of %r (%s): %s' % (plain.decode('latin-1'), tab, chr(pad), label, '; '.join(w)),
                              {'input_hex': x.hex(), 'tab': tab, 'pad': pad, 'build': label, 'expected': want[plain].hex(), 'got': g, 'narrow': low})
    rep.part('values written, %d of %d' % (tab, pad), values=len(got), texts=len(texts), replays=6 * len(got))


def run(rep, tier):
    th = tier == 'thorough'
    bins = list(zip(('c++20', 'c++11'), build_many([dict(source='tidy', std='20'), dict(source='tidy', std='11')])))
    rng = random.Random(SEED)
    jobs = []
    for n, (name, (pre, toks, q, t, laws)) in enumerate(ALPH_T.items()):
        for s in (SETTINGS if th else [SETTINGS[0], SETTINGS[1 + n % 6]]):
            jobs.append((name, pre, toks, t if th and s == SETTINGS[0] else q if s == SETTINGS[0] or th else q - 1, laws, s))

    def job(j):
        name, pre, toks, n, laws, (tab, pad) = j
        replay(rep, tgen(rep, tab, pad, pre, toks, n, laws), bins, name, tab, pad, SEED, most=40000 if th else 6000)
    parallel([(lambda j=j: job(j)) for j in jobs], 4)
    from docs import random_json, suite_files
    for n, (tab, pad) in enumerate(SETTINGS if th else SETTINGS[:1] + SETTINGS[2:3]):
        docs = sorted({random_json(rng) for _ in range(2000 if th else 300)})
        exps = trun(rep, tab, pad, docs)
        replay(rep, exps, bins, 'random texts', tab, pad, SEED + n, ops=('T', 'S', 'B') if th or n == 0 else ('T', 'S'))
        run_values(rep, docs, bins, tab, pad)
        if n < 2:
            docs = suite_files(4096)
            exps = trun(rep, tab, pad, docs)
            replay(rep, exps, bins, 'texts found in the repository', tab, pad, SEED, ops=('T', 'S'))
            run_values(rep, docs, bins, tab, pad)
    vdocs = [b'["' + bytes(x) + b'"]' for x in ([0x5c, 0x22], [0x5c, 0x5c], [0x5c, 0x5c, 0x5c, 0x22, 0x2c], list(b'[1, {2}]'), list(b'a\\nb\\tc'), list(b'0123456789abcdef\\"[{,:}]0123456789abcdef'),
                                              list(b'\\u0022\\ud83d\\ude00, \\u0000'), list(b"it's"))]
    vdocs += [b'{"' + d[2:-2] + b'":[' + d[1:-1] + b',"",' + d[1:-1] + b']}' for d in vdocs] + [b'{"a":1.5e300,"b":-0.0,"":1}', b'[{"a":true},{},{"b":false,"c":true}]', b'[[],[[],{}],{"a":{}}]']
    vdocs += [b'[' * n + b']' * n for n in (10, 40)] + [b'{"a":' * n + b'[]' + b'}' * n for n in (10, 40)]
    for tab, pad in SETTINGS:
        run_values(rep, [x for x in vdocs if th or tab <= 1 or x[:40] not in (b'[' * 40, (b'{"a":' * 8))], bins, tab, pad)
    rep.assumptions += ['comments, and texts that are not JSON, are not printed']
