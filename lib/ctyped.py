"""Typed targets in CBOR: the meaning of items to types (spec/TypedCbor), replay into the library, validation of what it writes back."""
from cborlib import *
import types_ as ty
from types_ import *
import typedlib
from typedlib import Meaning, binaries, _meanings

CBOR_BUILDS = (('c++20', '20', 1 | 8, ()), ('c++11', '11', 4 | 64, ()))       # lists of bytes are no source for fixed storage (does not compile)
TOPT = dict(dep=0, lim=False, sk=False)
def plain_nans(got):
    """not-a-number whatever its sign"""
    return got.replace('r-nan', 'rnan')


def cgen_typed(rep, types, prefixes, tokens, maxtok, o=TOPT, timeout=800):
    r = tlc('TCborGen', dict(Opt=o, Prefixes=list(prefixes), Tokens=list(tokens), MaxTok=maxtok, Types_=[t.tla for t in types]), ['Out', 'Sane', 'TagBlind'],
            stats=rep.stats, timeout=timeout)
    return _meanings(r)


def crun_typed(rep, types, docs, o=TOPT, timeout=800):
    docs = list(dict.fromkeys(docs))
    if not docs:
        return {}
    corpus = ''.join(json.dumps([0, list(x)]) + '\n' for x in docs)
    r = tlc('TCborRun', dict(Opt=o, Types_=[t.tla for t in types]), ['Out', 'Sane'], files={'corpus.ndjson': corpus}, stats=rep.stats, timeout=timeout)
    return {docs[k - 1]: v for k, v in _meanings(r).items()}


def want(mean, i, skips=False):
    """-> ('no', None) refused, ('yes', text), ('may', text) accepted only as this, ('any', None) not settled"""
    if mean.m == 'loose' and skips:
        return 'any', None
    if mean.m != 'done' or i not in mean.r:
        return 'no', None
    v = mean.r[i]
    if v[0] == '*':
        return 'any', None
    k = 'yes'
    if v[0] == '|':
        k, v = 'may', v[1]
    try:
        return k, canon(v)
    except Unsettled:
        return 'any', None


def cjudge(mean, w, got, size):
    k, txt = w
    f = got.split(' ', 2)
    if f[0] == 'ok':
        if k == 'no':
            return 'accepted as %s, must be refused' % f[2]
        if k == 'any':
            return None if 0 <= int(f[1]) <= size else 'end reported at %s, outside the input' % f[1]
        if int(f[1]) != mean.n:
            return 'end reported at %s, must be %d' % (f[1], mean.n)
        return None if f[2] == txt else 'value %s, must be %s' % (f[2], txt)
    if f[0] == 'err':
        if k == 'yes':
            return 'refused at %s, must read %s' % (f[1], txt)
        return None if 0 <= int(f[1]) <= size else 'error reported at %s, outside the input' % f[1]
    return got


def creplay_typed(rep, types, means, bins, part, sigp='', write=True):
    docs = list(means)
    written = {}
    accepted = 0
    cache = {}
    for label, idx, b in bins:
        res = run_cases(b, ['R\t255\t%s' % hexs(x) for x in docs])
        rep.traces += len(docs)
        rep.part(part, replays=len(docs) * len(idx))
        for x, r in zip(docs, res):
            mean = means[x]
            for names, got in split_groups(r):
                got = plain_nans(got)
                if names == 'all':
                    if got != 'SKIPPED':
                        rep.violation('%sread:%s' % (sigp, x.hex()), '%s (%s): %s' % (x.hex(), label, got), {'input_hex': x.hex(), 'build': label, 'types': [types[i].cpp for i in idx], 'got': got})
                    continue
                for nm in names.split(','):
                    j, _, path = nm.partition('/')
                    i = idx[int(j)]
                    if (x, i) not in cache:
                        cache[x, i] = want(mean, i, has_skip(types[i].tla))
                    w = cache[x, i]
                    if path:
                        bad = cjudge(mean, w, got, len(x))
                        if bad:
                            rep.violation('%sread:%s:%s' % (sigp, types[i].cpp, x.hex()), '%s into %s (%s, via %s): %s' % (x.hex(), types[i].cpp, label, path, bad),
                                          {'input_hex': x.hex(), 'type': types[i].cpp, 'build': label, 'path': path, 'expected': list(w), 'end': mean.n, 'got': got})
                        elif got.startswith('ok'):
                            accepted += 1
                    elif write and w[0] in ('yes', 'may'):
                        typedlib.note_written(rep, types, i, x, got, label, written, w[1], sigp, True)
    rep.part(part, documents=len(docs), accepted=accepted)
    k = [x for x in docs if means[x].r]
    if k:
        x = k[len(k) * 2 // 3]
        i = sorted(means[x].r)[0]
        rep.sample({'part': part, 'input': x.hex(), 'end': means[x].n, 'type': types[i].cpp, 'value': list(want(means[x], i))}, 30)
    return written


def ccheck_written(rep, types, written, part, sigp=''):
    """what the library wrote goes back through the specification: one item, shortest heads, stated lengths, the value"""
    items = list(written)
    if not items:
        return
    first = {}
    same = [first.setdefault(repr(t.tla), k) for k, t in enumerate(types)]
    uniq = {}
    where = [uniq.setdefault((same[t], x), len(uniq)) for t, x in items]
    corpus = ''.join(json.dumps([t + 1, list(x)]) + '\n' for t, x in uniq)
    r = tlc('TCborRun', dict(Opt=TOPT, Types_=[t.tla for t in types]), ['Out', 'Sane'], files={'corpus.ndjson': corpus}, stats=rep.stats)
    out = [None] * len(uniq)
    for _, d, m, n, rs in r:
        out[d - 1] = (m, n, rs[0] if rs else None)
    for (i, w), k in zip(items, where):
        x, val, label = written[(i, w)]
        m, n, q = out[k]
        why = None
        if m != 'done':
            why = 'is not a well-formed item'
        elif n != len(w):
            why = 'is followed by further bytes'
        elif not q[3]:
            why = 'has a head that is not the shortest'
        elif not q[2]:
            why = 'does not list the members in their order'
        else:
            g = want(Meaning(m, n, {0: q[1]}), 0)
            if g[0] in ('no', 'any') or g[1] != val:
                why = 'denotes %s, not %s' % (g, val)
        if why:
            rep.violation('%swritten:%s:%s' % (sigp, types[i].cpp, w.hex()), 'written for %s (%s): %s %s' % (types[i].cpp, label, w.hex(), why),
                          {'read_from_hex': x.hex(), 'type': types[i].cpp, 'written_hex': w.hex(), 'build': label})
    rep.part(part, written_texts=len(items))
    rep.traces += len(items)


def crun_parts(rep, types, parts, label='', o=TOPT, builds=CBOR_BUILDS, write=True):
    """parts: (name, prefixes, tokens, number of tokens) or (name, documents)"""
    bs = binaries(types, builds, cbor=True)
    written = {}

    def one(p):
        ms = cgen_typed(rep, types, p[1], p[2], p[3], o) if len(p) == 4 else crun_typed(rep, types, p[1], o)
        return creplay_typed(rep, types, ms, bs, p[0], write=write)
    for w in parallel([lambda p=p: one(p) for p in parts], 4):
        written.update(w)
    ccheck_written(rep, types, written, label + 'written back')
    return bs


def cagain(rep, types, docs, bins, part, settled, sigp=''):
    """read one document, then another into the same target: settled(i, first meaning, second meaning) when the second alone decides the outcome"""
    docs = list(dict.fromkeys(docs))
    ms = crun_typed(rep, types, docs)
    for label, idx, b in bins:
        meta = [(x, y) for x in docs for y in docs]
        res = run_cases(b, ['P\t%s\t%s' % (hexs(x), hexs(y)) for x, y in meta])
        rep.traces += len(meta)
        rep.part(part, replays=len(meta) * len(idx))
        for (x, y), r in zip(meta, res):
            for names, got in split_groups(r):
                got = plain_nans(got)
                if names == 'all':
                    if got != 'SKIPPED':
                        rep.violation('%sagain:%s:%s' % (sigp, x.hex(), y.hex()), '%s then %s (%s): %s' % (x.hex(), y.hex(), label, got), {'first_hex': x.hex(), 'second_hex': y.hex(), 'build': label, 'got': got})
                    continue
                for nm in names.split(','):
                    i = idx[int(nm)]
                    if not settled(i, ms[x], ms[y]):
                        continue
                    bad = cjudge(ms[y], want(ms[y], i, has_skip(types[i].tla)), got.lstrip('!'), len(y))
                    if bad:
                        rep.violation('%sagain:%s:%s:%s' % (sigp, types[i].cpp, x.hex(), y.hex()), '%s then %s into %s (%s): %s' % (x.hex(), y.hex(), types[i].cpp, label, bad),
                                      {'first_hex': x.hex(), 'second_hex': y.hex(), 'type': types[i].cpp, 'build': label, 'got': got})
