"""CBOR side: alphabets for the item machine, expected outcomes, comparison with the library."""
from util import *
from jsonlib import split_groups, Dup

STDC = dict(dep=64, lim=True)
H = lambda *xs: [bytes.fromhex(x) for x in xs]


def copt(**kw):
    d = dict(STDC)
    d.update(kw)
    return d


def uint(bs):
    return int.from_bytes(bytes(bs), 'big')


def half(bs):
    return struct.unpack('>e', bytes(bs))[0]


def real(bs):
    f = struct.unpack({2: '>e', 4: '>f', 8: '>d'}[len(bs)], bytes(bs))[0]
    return f


def rtxt(f):
    return 'rnan' if f != f else 'r' + dbits(f)


def ctree(ev):
    """events -> nested: ('leaf', kind, payload) ('arr', items) ('map', pairs) ('tag', bytes, item)"""
    pos = 0
    ev = [e for e in ev if e[0] != '*']

    def item():
        nonlocal pos
        e = ev[pos]
        pos += 1
        k = e[0]
        if k == '[]':
            return ('arr', [])
        if k == '{}':
            return ('map', [])
        if k == '[':
            o = []
            while ev[pos][0] != ']':
                o.append(item())
            pos += 1
            return ('arr', o)
        if k == '{':
            o = []
            while ev[pos][0] != '}':
                a = item()
                o.append((a, item()))
            pos += 1
            return ('map', o)
        if k == 't':
            return ('tag', uint(e[1]), item())
        return ('leaf', k, e[1] if len(e) > 1 else None)
    return item()


def leaf(t):
    k, p = t[1], t[2]
    if k == 'u':
        return 'u%d' % uint(p)
    if k == 'i':
        return 'i%d' % (-1 - uint(p))
    if k == 'f':
        return rtxt(real(p))
    if k in 'bs':
        return k + bytes(p).hex()
    if k == 'x':
        return 'x%d' % p
    return k


def image(t):
    """what a JSON dynamic value makes of an item: tags are dropped, bytes become numbers, undefined becomes null, simple values their number"""
    if t[0] == 'arr':
        return ('arr', [image(x) for x in t[1]])
    if t[0] == 'map':
        return ('map', [(image(a), image(b)) for a, b in t[1]])
    if t[0] == 'tag':
        return image(t[2])
    k, p = t[1], t[2]
    if k == 'b':
        return ('arr', [('leaf', 'u', [x]) for x in p])
    if k == 'x':
        return ('leaf', 'u', [p])
    if k == 'undef':
        return ('leaf', 'null', None)
    return t


def ctext(t):
    """canonical text; Dup when a map has equal keys (or keys that cannot be compared)"""
    if t[0] == 'leaf':
        return leaf(t)
    if t[0] == 'arr':
        return '[' + ' '.join(ctext(x) for x in t[1]) + ']'
    if t[0] == 'tag':
        return 't%d(%s)' % (t[1], ctext(t[2]))
    ps = [(ctext(a), ctext(b)) for a, b in t[1]]
    ks = [a.replace('r8000000000000000', 'r0000000000000000') for a, _ in ps]
    if len(set(ks)) != len(ks) or any('rnan' in a for a in ks):
        raise Dup()
    return '{' + ' '.join(sorted(a + ':' + b for a, b in ps)) + '}'


class CExp:
    __slots__ = ('ok', 'n', 'ev', 'r', 'short')

    def __init__(self, m, n, ev, r='', short=None):
        self.ok, self.n, self.ev, self.r, self.short = m == 'done', n, ev, r, short

    def unjudged(self):
        """two-byte simple values below 32 are reserved: whether they are values at all is not settled"""
        return any(e[0] == 'x' and e[2] == 0 for e in self.ev)

    def text(self, op):
        try:
            t = ctree(self.ev)
            return ctext(image(t) if op[0] == 'J' else t)
        except Dup:
            return None


def cgen(rep, o, prefixes, tokens, maxtok, timeout=800):
    r = tlc('CborGen', dict(Opt=o, Prefixes=list(prefixes), Tokens=list(tokens), MaxTok=maxtok), ['Out', 'Sane'], ['Monotone'], stats=rep.stats, timeout=timeout)
    d = {}
    for _, inp, m, n, ev, why in r:
        b = bytes(inp)
        e = CExp(m, n, ev, why)
        if b in d and (d[b].ok, d[b].n, d[b].ev) != (e.ok, e.n, e.ev):
            raise CheckError('the machine is not deterministic on %s' % b.hex())
        d[b] = e
    return d


def crun(rep, o, docs, timeout=800):
    if not docs:
        return []
    corpus = ''.join(json.dumps(list(x)) + '\n' for x in docs)
    r = tlc('CborRun', dict(Opt=o), ['Out', 'Sane'], files={'corpus.ndjson': corpus}, stats=rep.stats, timeout=timeout)
    out = [None] * len(docs)
    for _, d, m, n, ev, why, sh in r:
        out[d - 1] = CExp(m, n, ev, why, sh)
    if None in out:
        raise CheckError('machine run incomplete')
    return out


def check_cread(exp, got, op, size):
    if got.startswith('ok '):
        _, n, txt = got.split(' ', 2)
        if not exp.ok:
            return 'accepted (%s), must be refused' % got
        if int(n) != exp.n:
            return 'end reported at %s, must be %d' % (n, exp.n)
        want = exp.text(op)
        if want is not None and txt != want:
            return 'value %s, must be %s' % (txt, want)
        return None
    if got.startswith('err '):
        if exp.unjudged():
            return None
        if exp.ok:
            return 'refused (%s), must read %s' % (got, exp.text(op))
        n = int(got.split(' ')[1])
        if not 0 <= n <= size:
            return 'error reported at %d, outside the input' % n
        if exp.r == 'depth' and 'cxon/node:2' not in got:
            return 'refused with %s, must be the depth error' % got
        return None
    return got


def creplay(rep, exps, binaries, part, ops=('C', 'J'), mask=511, sigp='', written=None):
    """replay {input: CExp} into dynamic values; what is written back is collected in written {(op, bytes): input}"""
    docs = list(exps)
    for label, b in binaries:
        for op in ops:
            res = run_cases(b, ['%s\t%d\t%s' % (op, mask, hexs(x)) for x in docs])
            for x, r in zip(docs, res):
                for paths, g in split_groups(r):
                    if g == 'SKIPPED':
                        continue
                    if paths == 'written':
                        if written is None or exps[x].unjudged() or exps[x].text(op) is None or 'rnan' in exps[x].text(op):
                            continue
                        if not g.startswith('w') or not g.endswith(' same'):
                            w = 'written back: %s' % g
                        else:
                            written.setdefault((op, bytes.fromhex(g[1:].split(' ')[0])), (x, exps[x].text(op)))
                            continue
                    else:
                        w = check_cread(exps[x], g, op, len(x))
                    if w:
                        rep.violation('%sread:%s:%s' % (sigp, op, x.hex()), '%s (%s, %s, via %s): %s' % (x.hex(), label, op, paths, w),
                                      {'input_hex': x.hex(), 'build': label, 'op': op, 'paths': paths, 'expected': {'ok': exps[x].ok, 'end': exps[x].n, 'value': exps[x].text(op) if exps[x].ok else None}, 'got': g})
            rep.traces += len(docs)
            rep.part(part, documents=len(docs) if (label, op) == (binaries[0][0], ops[0]) else 0, replays=len(docs))
    k = [x for x in docs if exps[x].ok]
    rep.part(part, accepted=len(k))
    if k:
        x = k[len(k) // 2]
        rep.sample({'part': part, 'input': x.hex(), 'end': exps[x].n, 'value': exps[x].text(ops[0])}, 30)


def check_cwritten(rep, written, part, sigp=''):
    """what was written goes back through the machine: one item, shortest heads, the value it was read as"""
    items = list(written)
    docs = list(dict.fromkeys(w for _, w in items))
    by = dict(zip(docs, crun(rep, copt(dep=0), docs)))
    for op, w in items:
        x, want = written[(op, w)]
        e = by[w]
        why = None
        if not e.ok:
            why = 'is not a well-formed item'
        elif e.n != len(w):
            why = 'is followed by further bytes'
        elif e.text(op) != want:
            why = 'denotes %s, not %s' % (e.text(op), want)
        elif not e.short:
            why = 'has a head that is not the shortest'
        if why:
            rep.violation('%swritten:%s:%s' % (sigp, op, w.hex()), 'written for %s: %s %s' % (x.hex() if isinstance(x, bytes) else x, w.hex(), why), {'read_from': x.hex() if isinstance(x, bytes) else x, 'written_hex': w.hex(), 'op': op})
    rep.part(part, written=len(items))
    rep.traces += len(items)


HEADS = ['%02x' % b for b in range(256)]
CALPH = {
    # name: (prefixes, tokens, quick, thorough)
    'heads': (H('', '81', '9f', 'a1', 'a100', 'bf', 'bf00', 'c1', '8100', '5f', '7f', '5f40', '9f00', 'd818', '1800', '9fbf', 'f8', 'f9', '18', '58', '98', 'b8', 'd8', '78'), H(*HEADS), 1, 2),
    'structure': (H(''), H('80', '81', '82', '9f', 'ff', 'a1', 'bf', 'c1', '00', '61', '5f'), 4, 5),
    'indefinite': (H('9f', 'bf', '819f', 'a1bf'), H('9f', 'bf', 'ff', '01', '6161', '5f', '7f', 'c0', '81', 'a1', 'f6'), 4, 5),
    'strings': (H('', '5f', '7f', '815f', 'a17f'), H('40', '4161', '60', '6162', '5801', '7801', '590002', '5a00000001', '7b0000000000000001', 'ff', '5f', '7f', '01', '7c', '5d', '63', 'c3'), 3, 4),
    'integers': (H('', '81', 'c1'), H('18', '19', '1a', '1b', '38', '39', '3a', '3b', '00', '7f', '80', 'ff', '17', '0001'), 3, 5),
    'wide': (H('1b', '3b', '1bff', '3b7f', '3b80', '1b7fffffff', '3b7fffffff', '3b80000000', '1b00000000', '3bffffffff'), H('00', 'ff', '80', '7f', '01', 'ffffff', '000000', '00000000'), 3, 5),
    'floats': (H('f9', 'fa', 'fb', '81f9', 'a1fa', 'fb7ff0', 'fbfff0', 'fb7fef', 'fb0000', 'fa7f80', 'faff80', 'fa7f7f'), H('00', '7c', '3c', 'fc', '80', '01', '7b', 'ff', '0000', '0001'), 3, 4),
    'counts': (H('98', '99', '9a', '9b', 'b8', 'b9', 'ba', 'bb', '58', '59', '5a', '5b', '78', '7b', '5f58', '7f7b', '9f9b', 'bfbb'), H('00', '01', '02', '18', 'ff', '7f', '80', '000000', '01ff', '03'), 3, 4),
    'tags': (H('', 'c1', 'd8', 'd9', 'da', 'db', '81d8', 'a1d9', 'a101', '9f'), H('c0', 'd7', 'd8', 'd9', 'dc', 'df', '00', '01', 'ff', '20', '80', 'a0', 'f6', '40', '000000', '17'), 3, 4),
    'simple': (H('', '81', 'a1', 'c0', '9f', 'bf'), H('e0', 'f3', 'f4', 'f5', 'f6', 'f7', 'f8', 'fc', 'fd', 'fe', 'ff', '1f', '20', 'fe20', '00'), 3, 4),
    'keys': (H('a1', 'a2', 'bf', 'a1a1', 'a181'), H('01', '20', '6161', '4161', 'f5', 'f6', 'f7', 'e1', 'f93c00', 'a0', 'a101', '80', '8101', 'c101', 'ff'), 3, 3),
}
