"""Nesting limits: every mixture of nesting around every limit, and every history of calls (one after, inside and beside another)."""
from jsonlib import *
from cborlib import *
import random

JT = {
    'lists': (T('', '['), T('[', ']', '1', ',', '[]', '[[]]', '{}'), 5, 7),
    'objects': (T('', '{"a":', '[{"a":'), T('{', '}', '"a":', '"b":', '1', ',', '[', ']'), 5, 7),
    'siblings': (T('[[],[],', '{"a":{},"b":[],', '[[[]],[{}],'), T('[', ']', '{"a":', '{"c":[]', '}', ',', '1'), 5, 7),
}
JK = {
    'keys': (T('', '{', '[{'), T('{', '}', '[', ']', '1', ':1', ':', ',', '[]', '{}'), 5, 7),
    'key siblings': (T('{[]:[],', '{{}:{},{1:[]}:2,', '{[1]:{[2]:3},'), T('{', '[', ']', '}', ':', '1', ',', '[3]:'), 5, 6),
}
CT = {
    'items': (H('', '81', '9f', 'c1'), H('81', '82', '80', 'a1', 'a0', '9f', 'bf', 'ff', 'c1', 'c2', '01', '6161'), 3, 4),
    'siblings': (H('838081a0', '9f8081a0', 'a180', 'bf81a0c10a', '8381c1018180'), H('81', '80', 'a1', 'c1', '01', 'ff', '9f', 'bf', 'a0'), 3, 5),
    'heads': (H('', '81', '9f81'), H('9801', '990001', '9a00000001', '9b0000000000000001', 'b801', 'd801', 'd90001', 'db0000000000000001', 'd9d9f7', '01', 'c1', '81'), 3, 4),
}
# not all in the smaller build: NOKIND
JR, JW, CR, CW = 'abc', 'ABCF', 'de', 'DE'


def key(res):
    return 'depth' if res == 'cxon/node:2' else 'ok' if res == 'ok' else res if res in ('unread', 'unfired', 'NOKIND', 'NOLIM') or res.startswith('unsteady') else 'err'


def judge_call(want, got):
    g = key(got)
    return None if g == want else '%s, must be %s' % (got, {'ok': 'done', 'depth': 'the depth error', 'err': 'an error'}[want])


def outcome(e):
    """of a machine run: numbers never matter here"""
    return 'ok' if e.wf else 'depth' if e.r == 'depth' else 'err'


def coutcome(e):
    return 'ok' if e.ok else 'depth' if e.r == 'depth' else 'err'


def sweep(rep, bins, part, lim, docs, reads, writes, plain, shift=()):
    """docs: {bytes: outcome under the limit}; plain: {bytes: outcome without one}"""
    lines, meta = [], []
    ds = [d for d in docs if docs[d] != 'skip']
    for d in ds:
        for k in reads:
            meta.append((k, d, docs[d]))
        if plain.get(d) == 'ok':
            for k in writes:
                meta.append((k, d, docs[d]))
    lines = ['S\t%s:%d:%s' % (k, lim, hexs(d)) for k, d, _ in meta]
    for label, b in bins:
        for (k, d, want), r in zip(meta, run_cases(b, lines)):
            w = None if r in ('SKIPPED', 'NOKIND') else judge_call(want, r)
            if w:
                rep.violation('limit:%s:%d:%s' % (k, lim, d.hex()), 'limit %d, call %s on %s (%s): %s' % (lim, k, d if d[:1] in b'[{' else d.hex(), label, w),
                              {'call': k, 'limit': lim, 'input_hex': d.hex(), 'build': label, 'got': r, 'expected': want})
        rep.traces += len(lines)
    rep.part(part, documents=len(ds), calls=len(lines) * len(bins), refused_as_too_deep=sum(docs[d] == 'depth' for d in ds))


def mixture(rnd, n, key):
    """n nested containers in a random mixture, with some siblings; (JSON text, ok)"""
    def val(k):
        if k == 0:
            return rnd.choice(['1', '"s"', 'null', '', ''])
        sib = rnd.choice(['', '', '', '[],', '[[]],', '{},', '0,'])
        c = rnd.random()
        if c < .45:
            v = val(k - 1)
            if k == 1 and v == '':
                return '[]'
            return '[' + sib + (v or '2') + rnd.choice(['', ',[]', ',3']) + ']'
        if key and c < .7:
            v = val(k - 1)
            return '{' + (v or '3') + ':' + rnd.choice(['1', '[]']) + '}' if k > 1 else '{' + (v or '3') + ':1}'
        v = val(k - 1)
        if k == 1 and v == '':
            return '{}'
        return '{"a":' + (v or '4') + rnd.choice(['', ',"b":[]' if k > 1 else '']) + '}'
    return val(n).encode()


def cmixture(rnd, n):
    def val(k):
        if k == 0:
            return rnd.choice([b'\x01', b'\x61a', b'\xf6', b'\xf7'])
        v = val(k - 1)
        return rnd.choice([lambda: b'\x81' + v, lambda: b'\x82\x80' + v if k > 1 else b'\x82\x01' + v, lambda: b'\x9f' + v + b'\xff', lambda: b'\xa1\x01' + v, lambda: b'\xa1' + v + b'\x01',
                           lambda: b'\xbf\x01' + v + b'\xff', lambda: b'\xbf' + v + b'\x02\xff', lambda: b'\xc1' + v, lambda: b'\xd8\x20' + v, lambda: b'\x98\x02' + v + b'\xa0' if k > 1 else b'\x81' + v])()
    return val(n)


def deep(rep, bins, th, key, label):
    """every limit with a wide range of depths around it"""
    def one(lim):
        rnd = random.Random(SEED * 31 + 2 * lim + key)
        l = lim or 64
        ns = [n for n in sorted({1, 2, l - 3, l - 2, l - 1, l, l + 1, l + 2, l + 7, 2 * l}) if n > 0]
        k = (40 if th else 8)
        jd = sorted({mixture(rnd, n, key) for n in ns for _ in range(k)} | {b'[' * n + b']' * n for n in ns} | {b'{"a":' * n + b'1' + b'}' * n for n in ns} | {b'[' * n for n in ns}
                    | ({b'{' * n + b'1' + b':1}' * n for n in ns} if key else set()))
        o = opt(key='b' if key else 'q', dep=l)
        lim_, no = run_machine(rep, o, jd), run_machine(rep, dict(o, dep=0), jd)
        sweep(rep, bins, 'depths' + label, lim, {d: outcome(e) for d, e in zip(jd, lim_)}, JR, JW, {d: outcome(e) for d, e in zip(jd, no)})
        cd = sorted({cmixture(rnd, n) for n in ns for _ in range(k)} | {b'\x81' * n + b'\x01' for n in ns} | {b'\xc1' * n + b'\x01' for n in ns} | {b'\xa1' * n + b'\x01' * (n + 1) for n in ns} | {b'\x9f' * n for n in ns})
        sweep(rep, bins, 'depths' + label, lim, {d: coutcome(e) for d, e in zip(cd, crun(rep, copt(dep=l), cd))}, CR, CW, {d: coutcome(e) for d, e in zip(cd, crun(rep, copt(dep=0), cd))})
    parallel([lambda l=l: one(l) for l in (0, 5, 9, 63, 65, 200)], 4)


def twice(ev):
    """does a map hold equal keys? (which of their values it keeps is not settled here)"""
    pos = 0

    def item():
        nonlocal pos
        e = ev[pos]
        pos += 1
        if e[0] == 'kn':
            e = e[1:]
        if e[0] in ('[', '{'):
            m, o = e[0] == '{', []
            while ev[pos][0] not in (']', '}'):
                o.append(item())
            pos += 1
            if m and len(set(o[::2])) * 2 != len(o):
                raise Dup()
            return e[0] + ' '.join(o)
        if e[0] in ('t', '*'):
            return repr(e) + item()
        return repr(['s', e[1]] if e[0] == 'k' else e[:2])
    try:
        item()
    except Dup:
        return True
    return False


LIMS = (1, 2, 3, 4)


def exhaust(rep, bins, th, key, label):
    """every input of the alphabets under every limit"""
    def one(f, name, a):
        pre, toks, q, t = a
        o = opt(key='b' if key else 'q') if f == 'j' else copt()
        rows = tlc('NodeGen', dict(F=f, Os=[dict(o, dep=d) for d in (0,) + LIMS + (LIMS[-1] + 1,)], Prefixes=list(pre), Tokens=list(toks), MaxTok=t if th else q), ['Out', 'Nested', 'Exact'], stats=rep.stats)
        g = {bytes(d): r for _, d, r, _ in rows}
        plain = {bytes(d): r[0] for _, d, r, ev in rows if ev and not twice(ev)}
        for i, lim in enumerate(LIMS, 1):
            sweep(rep, bins, name + label, lim, {d: r[i] for d, r in g.items()}, JR if f == 'j' else CR, JW if f == 'j' else CW, plain)
            # elements of a caller's list: the list itself is not a dynamic value, so that the document may nest one level more
            sweep(rep, bins, name + ' in a list' + label, lim, {d: r[i + 1] for d, r in g.items() if d[:1] in (b'[' if f == 'j' else LISTS)}, 'g' if f == 'j' else 'h', 'G' if f == 'j' else 'H', plain)
    parallel([lambda n=n, a=a: one('j', n, a) for n, a in (JK if key else JT).items()] + ([] if key else [lambda n=n, a=a: one('c', n, a) for n, a in CT.items()]), 4)


LISTS = bytes(range(0x80, 0xa0))


def calls_of(docs, key):
    """[(f, limit, doc)] -> machine calls"""
    return [dict(f=f, o=opt(key='b' if key else 'q', dep=l or 64) if f == 'j' else copt(dep=l or 64), doc=list(d)) for f, l, d in docs]


def histories(rep, bins, part, docs, inside, most, key, th):
    rnd = random.Random(SEED + most)
    rows = tlc('NodeCalls', dict(Calls=calls_of(docs, key), Inside=inside, Most=most), ['Out', 'Independent'], stats=rep.stats)
    full = [outcome(e) for e in run_machine(rep, opt(key='b' if key else 'q', dep=0), [d if f == 'j' else b'' for f, _, d in docs])]
    cfull = [coutcome(e) for e in crun(rep, copt(dep=0), [d if f == 'c' else b'' for f, _, d in docs])]
    def kind(i):
        f, _, _ = docs[i]
        if f == 'j':
            return rnd.choice(JR + (JW if full[i] == 'ok' else ''))
        return rnd.choice(CR + (CW if cfull[i] == 'ok' else ''))
    lines, want = [], []
    for _, log in rows:
        for _ in range(2 if th else 1):
            lines.append('S\t' + ','.join('%s:%d:%s%s' % (kind(c - 1), docs[c - 1][1], hexs(docs[c - 1][2]), ':%d:%d' % (p - 1, at) if p else '') for c, p, at, _ in log))
            want.append([r for *_, r in log])
    for label, b in bins:
        for l, w, r in zip(lines, want, run_cases(b, lines)):
            if r == 'SKIPPED':
                continue
            got = r.split(',')
            if len(got) != len(w):
                bad = r
            else:
                bad = [g for g, x in zip(got, w) if key_(g) not in (x, 'unfired', 'NOKIND')]
            if bad:
                rep.violation('history:%s' % l.split('\t')[1], 'calls %s (%s): %s, must be %s' % (l.split('\t')[1], label, r, ','.join(w)), {'calls': l, 'build': label, 'got': r, 'expected': w})
        rep.traces += len(lines)
    rep.part(part, histories=len(lines) * len(bins))
    if lines:
        rep.sample({'part': part, 'history': lines[len(lines) // 2], 'outcomes': want[len(lines) // 2]})
    return lines, want


key_ = key


def threads(rep, bins, lines, want, n, rounds):
    rnd = random.Random(SEED)
    flat = [(l.split('\t')[1], w) for l, w in zip(lines, want)]
    groups = [[flat[rnd.randrange(len(flat))] for _ in range(6)] for _ in range(n)]
    cases = ['T\t%d\t%s' % (rounds, '\t'.join(l for l, _ in g)) for g in groups]
    for label, b in bins:
        for g, c, r in zip(groups, cases, run_cases(b, cases)):
            if r == 'SKIPPED':
                continue
            rs = r.split(';')
            if len(rs) != len(g):
                rep.violation('threads:%s' % c, 'threads %s (%s): %s' % (c, label, r), {'calls': c, 'got': r})
                continue
            for (l, w), x in zip(g, rs):
                if any(key_(q) not in (y, 'unfired', 'NOKIND') for q, y in zip(x.split(','), w)) or len(x.split(',')) != len(w):
                    rep.violation('threads:%s' % l, 'calls %s beside others (%s): %s, must be %s' % (l, label, x, ','.join(w)), {'threads': c, 'build': label, 'got': x, 'expected': w})
        rep.traces += len(cases)
    rep.part('threads', groups=len(cases) * len(bins), threads=6, rounds=rounds)


def run(rep, tier):
    th = tier == 'thorough'
    bs = build_many([dict(source='depth', std='20', defs=['VH_LIMS'], opt='-O1'), dict(source='depth', std='20', defs=['VH_LIMS', 'VH_QU=0'], opt='-O1'), dict(source='depth', std='11', defs=['VH_LIMS', 'VH_FEW'], opt='-O1')])
    plain, keyed = [('c++20', bs[0])], [('c++20, any keys', bs[1])]
    both = plain + [('c++11', bs[2])]
    exhaust(rep, plain, th, False, '')
    exhaust(rep, keyed, th, True, ' (any keys)')
    deep(rep, both, th, False, '')
    deep(rep, keyed, th, True, ' (any keys)')
    J, C = lambda l, *xs: [('j', l, x.encode()) for x in xs], lambda l, *xs: [('c', l, bytes.fromhex(x)) for x in xs]
    docs = J(3, '[[]]', '[[],[{}]]', '{"a":[]}', '[[', '[[1', '[1,[2],[3]]', '{"a":{"b":1}}') + J(2, '[[]]', '[1]', '[{', '{"a":[') + J(4, '[[[]]]', '[[[[', '[{"a":[1]}]', '[[[[1]]]]') + \
        C(3, '8180', 'c18101', '818180', 'a1800181', '9f8080ff', 'c1c101') + C(2, '8101', 'c1c1', '9f01ff', '8180') + C(4, 'c181a0', '9fc1bfffff', '81818180', 'a18180c101') + J(0, '[[[[1]]]]', '[[') + C(0, '81c18180', '8181')
    l1, w1 = histories(rep, both, 'two calls', docs, 2, 2, False, th)
    few = J(3, '[[]]', '[[[', '{"a":[[]]}') + C(3, '8180', 'c18181', '81c101')
    l2, w2 = histories(rep, both, 'three calls', few + (J(2, '[1]', '[[') + C(4, '818180') if th else []), 3, 3, False, th)
    kd = J(3, '{[]:1}', '{{}:{}}', '{[1]:[2]}', '{[[]]:1}', '{[', '{{1:2}:3}') + J(2, '{1:2}', '{[]:1}') + J(4, '{[{}]:1}', '[{[1]:{1:2}}]')
    histories(rep, keyed, 'two calls (any keys)', kd, 2, 2, True, th)
    threads(rep, both, l1 + l2, w1 + w2, 2000 if th else 300, 40 if th else 20)
    rep.assumptions += ['a limit of D admits values nested less than D deep, as the documented example does', 'calls made from inside other calls stand for every interleaving at the granularity of single bytes; threads are sampled']
