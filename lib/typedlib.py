"""Typed targets: the meaning of documents to types (spec/Typed), replay into the library, and validation of what the library writes back."""
from jsonlib import *
import types_ as ty
from types_ import *

ODD = re.compile(rb'0\d|\d\.(\D|$)|(^|[^\d])\.\d|\d[eE]([^\d+-]|$)|\d[eE][+-](\D|$)|"[ \t\n\r]*\+|-(\D|$)|inf|nan|Inf|NaN')
TOPREAL = re.compile(rb'[ \t\r\n]*-?\d+[.eE]')
CHUNK = 10
JSON_BUILDS = (('c++20', '20', 1 | 8, ()), ('c++11', '11', 4 | 32, ()))
SCALAR = ('int', 'opt', 'uvar')


class Meaning:
    __slots__ = ('m', 'n', 'r')

    def __init__(self, m, n, r):
        self.m, self.n, self.r = m, n, r


def _meanings(rows):
    out = {}
    for _, d, m, n, rs in rows:
        out[bytes(d) if isinstance(d, list) else d] = Meaning(m, n, {x[0] - 1: x[1] for x in rs})
    return out


def gen_typed(rep, types, prefixes, tokens, maxtok, o=STD, timeout=800):
    r = tlc('TypedGen', dict(Opt=o, Prefixes=list(prefixes), Tokens=list(tokens), MaxTok=maxtok, Types_=[t.tla for t in types]), ['Out', 'Sane', 'Bounded'],
            stats=rep.stats, timeout=timeout)
    return _meanings(r)


def run_typed(rep, types, docs, o=STD, timeout=800):
    docs = list(docs)
    if not docs:
        return {}
    corpus = ''.join(json.dumps([0, list(x)]) + '\n' for x in docs)
    r = tlc('TypedRun', dict(Opt=o, Types_=[t.tla for t in types]), ['Out', 'Sane'], files={'corpus.ndjson': corpus}, stats=rep.stats, timeout=timeout)
    return {docs[k - 1]: v for k, v in _meanings(r).items()}


def validate_written(rep, types, items, o=STD, timeout=800):
    """items: list of (type index, bytes); -> list of (Meaning-or-None as (R, InOrder), n, done)"""
    if not items:
        return []
    # types the specification does not tell apart share their texts
    first = {}
    same = [first.setdefault(repr(t.tla), k) for k, t in enumerate(types)]
    uniq = {}
    where = [uniq.setdefault((same[t], x), len(uniq)) for t, x in items]
    corpus = ''.join(json.dumps([t + 1, list(x)]) + '\n' for t, x in uniq)
    r = tlc('TypedRun', dict(Opt=o, Types_=[as_written(t.tla) for t in types]), ['Out', 'Sane'], files={'corpus.ndjson': corpus}, stats=rep.stats, timeout=timeout)
    out = [None] * len(uniq)
    for _, d, m, n, rs in r:
        out[d - 1] = (m, n, rs[0][1] if rs else None, rs[0][2] if rs else False)
    return [out[k] for k in where]


def binaries(types, builds=JSON_BUILDS, cbor=False, defs=(), chunk=CHUNK):
    """-> [(label, indices, binary)] for every build and every chunk of the types it can have"""
    specs, lab = [], []
    for label, std, paths, more in builds:
        ix = [i for i, t in enumerate(types) if t.std <= int(std) and (t.cbor if cbor else t.json)]
        n = max(1, (len(ix) + chunk - 1) // chunk)
        for k in range(n):
            part = ix[k::n]
            if not part:
                continue
            p = write_list([(j, types[i]) for j, i in enumerate(part)], 'c' if cbor else 'j')
            df = ['VH_LIST="%s"' % p, 'VH_PATHS=%d' % paths] + list(defs) + list(more) + (['VH_CBOR'] if cbor else []) + (['VH_BOOST'] if any(types[i].boost for i in part) else [])
            specs.append(dict(source='typ', std=std, defs=df, opt='-O0', name='typc' if cbor else 'typj'))
            lab.append((label, part))
    return [(l, p, b) for (l, p), b in zip(lab, build_many(specs))]


def expected(mean, i):
    """canonical text or None when refused"""
    if mean.m != 'done' or i not in mean.r:
        return None
    try:
        return canon(mean.r[i])
    except Refused:
        return None


def applies(types, i, doc, mean, path, cbor):
    """is the outcome of this reading settled by the specification?"""
    if cbor:
        return True
    t = types[i]
    if head(t) in SCALAR and TOPREAL.match(doc):
        return False            # an integer target takes the integer part (J04)
    if has_skip(t.tla) and mean.m != 'done':
        return False            # ignored values are skipped leniently
    if path == 'ptr' and ODD.search(doc):
        return False            # contiguous buffers take further number spellings unless strict
    return True


def replay_typed(rep, types, means, bins, part, cbor=False, sigp='', write=True, o=STD, skipdoc=None):
    docs = list(means)
    written = {}
    accepted = 0
    for label, idx, b in bins:
        res = run_cases(b, ['R\t255\t%s' % hexs(x) for x in docs])
        rep.traces += len(docs)
        rep.part(part, replays=len(docs) * len(idx))
        for x, r in zip(docs, res):
            mean = means[x]
            for names, got in split_groups(r):
                if names == 'all':
                    if got != 'SKIPPED':
                        rep.violation('%sread:%s' % (sigp, x.hex()), '%s (%s): %s' % (show(x, cbor), label, got), {'input_hex': x.hex(), 'build': label, 'types': [types[i].cpp for i in idx], 'got': got})
                    continue
                for nm in names.split(','):
                    if '/' in nm:
                        j, path = nm.split('/')
                        i = idx[int(j)]
                        if not applies(types, i, x, mean, path, cbor) or (skipdoc and skipdoc(types[i], x)):
                            continue
                        w = judge(mean, expected(mean, i), got)
                        if w:
                            rep.violation('%sread:%s:%s' % (sigp, types[i].cpp, x.hex()), '%s into %s (%s, via %s): %s' % (show(x, cbor), types[i].cpp, label, path, w),
                                          {'input_hex': x.hex(), 'type': types[i].cpp, 'build': label, 'path': path, 'expected': expected(mean, i), 'end': mean.n, 'got': got})
                        elif got.startswith('ok'):
                            accepted += 1
                    elif write:
                        i = idx[int(nm)]
                        if mean.m == 'done' and i in mean.r and not (skipdoc and skipdoc(types[i], x)) and not (not cbor and head(types[i]) in SCALAR and TOPREAL.match(x)) \
                                and not (label == 'c++20' and ODD.search(x)):
                            note_written(rep, types, i, x, got, label, written, mean.r[i], sigp, cbor)
    rep.part(part, documents=len(docs), accepted=accepted)
    k = [x for x in docs if means[x].r]
    if k:
        x = k[len(k) * 2 // 3]
        i = sorted(means[x].r)[0]
        rep.sample({'part': part, 'input': show(x, cbor), 'end': means[x].n, 'type': types[i].cpp, 'value': expected(means[x], i)}, 30)
    return written


def show(x, cbor=False):
    return x.hex() if cbor else x.decode('latin-1')


def judge(mean, want, got):
    f = got.split(' ', 2)
    if f[0] == 'ok':
        if want is None:
            return 'accepted as %s, must be refused' % f[2]
        if int(f[1]) != mean.n:
            return 'end reported at %s, must be %d' % (f[1], mean.n)
        if f[2] != want:
            return 'value %s, must be %s' % (f[2], want)
        return None
    if f[0] == 'err':
        if want is not None:
            return 'refused at %s, must read %s' % (f[1], want)
        if not 0 <= int(f[1]) <= mean.n:
            return 'error reported at %s, beyond the first impossible byte %d' % (f[1], mean.n)
        return None
    return got


def note_written(rep, types, i, x, got, label, written, r, sigp, cbor):
    """remember what was written for the value read from x; the round trip is judged here, the text itself by the specification"""
    def bad(what):
        rep.violation('%swrite:%s:%s' % (sigp, types[i].cpp, x.hex()), 'value of %s read into %s (%s): %s' % (show(x, cbor), types[i].cpp, label, what),
                      {'input_hex': x.hex(), 'type': types[i].cpp, 'build': label, 'got': got})
    if not got.startswith('w'):
        return bad('writing it fails (%s)' % got)
    h, rt = got[1:].split(' ', 1)
    if rt != 'same' and not (not cbor and has_stk(types[i].tla) and rt.startswith('differs')):
        bad('written as %s, which reads back %s' % (show(bytes.fromhex(h), cbor), rt))
    written.setdefault((i, bytes.fromhex(h)), (x, r, label))


def normal(r):
    try:
        return canon(r)
    except Refused:
        return '!'


def check_written(rep, types, written, part, o=STD, sigp=''):
    """texts written by the library go back through the specification (trace validation)"""
    items = list(written)
    vs = validate_written(rep, types, items, o)
    for (i, w), v in zip(items, vs):
        x, r, label = written[(i, w)]
        why = None
        if v is None or v[0] != 'done':
            why = 'is not a well-formed text'
        elif v[1] != len(w):
            why = 'is followed by further bytes'
        elif v[2] is None or normal(v[2]) != normal(r):
            why = 'denotes %s, not %s' % (None if v[2] is None else normal(v[2]), normal(r))
        elif not v[3]:
            why = 'does not list the members in their order'
        if why:
            rep.violation('%swritten:%s:%s' % (sigp, types[i].cpp, w.hex()), 'written for %s (%s): %s %s' % (types[i].cpp, label, w.decode('latin-1'), why),
                          {'read_from_hex': x.hex(), 'type': types[i].cpp, 'written_hex': w.hex(), 'build': label})
    rep.part(part, written_texts=len(items))
    rep.traces += len(items)


def run_typed_parts(rep, types, parts, o=STD, skip=None, label=''):
    """parts: (name, prefixes, tokens, number of tokens)"""
    bs = binaries(types)
    written = {}
    for name, pre, toks, n in parts:
        ms = gen_typed(rep, types, pre, toks, n, o)
        written.update(replay_typed(rep, types, ms, bs, name, skipdoc=skip, o=o))
    check_written(rep, types, written, label + 'written back', o)
    return bs


def before_after(rep, types, firsts, seconds, bins, part, want, sigp='', texts=False):
    """read the first document, then the second into the same target.  want(type index, first outcome, second meaning) -> expected text, None (refused) or NotImplemented"""
    docs = list(dict.fromkeys(list(firsts) + list(seconds)))
    ms = run_typed(rep, types, docs)
    for label, idx, b in bins:
        lines, meta = [], []
        for x in firsts:
            for y in seconds:
                lines.append('P\t%s\t%s' % (hexs(x), hexs(y)))
                meta.append((x, y))
        res = run_cases(b, lines)
        rep.traces += len(lines)
        rep.part(part, replays=len(lines) * len(idx))
        for (x, y), r in zip(meta, res):
            for names, got in split_groups(r):
                if names == 'all':
                    if got != 'SKIPPED':
                        rep.violation('%sagain:%s:%s' % (sigp, x.hex(), y.hex()), '%s then %s (%s): %s' % (show(x), show(y), label, got), {'first_hex': x.hex(), 'second_hex': y.hex(), 'build': label, 'types': [types[i].cpp for i in idx], 'got': got})
                    continue
                for nm in names.split(','):
                    i = idx[int(nm)]
                    w = want(i, ms[x], ms[y], x, y) if texts else want(i, ms[x], ms[y])
                    if w is NotImplemented:
                        continue
                    bad = judge(ms[y], w, got.lstrip('!'))
                    if bad:
                        rep.violation('%sagain:%s:%s:%s' % (sigp, types[i].cpp, x.hex(), y.hex()), '%s then %s into %s (%s): %s' % (show(x), show(y), types[i].cpp, label, bad),
                                      {'first_hex': x.hex(), 'second_hex': y.hex(), 'type': types[i].cpp, 'build': label, 'expected': w, 'got': got})
