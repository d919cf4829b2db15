"""Dynamic values between formats: either kind read from either format, written to both; the two texts must denote the same value."""
from jsonlib import *
from cborlib import *

KINDS = ('json::node', 'json::ordered_node', 'cbor::node', 'cbor::ordered_node')
JA = {
    'structure': (T(''), T('[', ']', '{', '}', ',', '"a":', '"b":', '"a"', '1', '-1.5', 'true', 'null'), 5, 6),
    'numbers': (T('', '[', '{"a":'), T('-', '0', '1', '9', '.5', 'e', '5', '18446744073709551615', '9223372036854775808', ',', ']', '}'), 3, 4),
    'strings': (T('"', '{"', '["x","'), T('"', '\\"', '\\\\', '\\u0041', '\\ud83d\\ude00', '\xc3\xa9', '\\n', '\x7f', ':1', '}', ']', ',', 'inf', 'nan'), 4, 5),
}
JKEYS = {
    'keys': (T('{', '[{'), T('{', '}', '[', ']', '1', '-2', '1.5', ':', ',', '"a"', '"\\""', 'null', 'true'), 5, 6),
}
CA = {
    'structure': (H(''), H('80', '81', '82', '9f', 'ff', 'a1', 'bf', 'c1', '00', '6161', '4161', 'f7'), 4, 5),
    'strings': (H('', '5f', '7f', '815f', 'a17f'), H('40', '41ff', '60', '6122', '615c', '610a', '62c3a9', '617f', 'ff', '01', '64f09f9880'), 3, 4),
    'integers': (H('1b', '3b', '1bffffffff', '3b7fffffff', '18', '38', '1a', '3a', 'a11b'), H('00', 'ff', '80', '7f', 'ffffff', '01'), 4, 5),
    'floats': (H('f9', 'fa', 'fb', '81f9', 'a1f9', 'fb7ff0', 'fbfff0', 'fb7fef', 'fb0000', 'fa7f80', 'fa7f7f'), H('00', '7c', '3c', 'fc', '80', '01', '7b', 'ff', '0000', '0001'), 3, 4),
    'tags': (H('', 'c1', 'd8', 'd9', '81d8', 'a1d9', 'a1c1', '9f'), H('c0', 'd8', '20', '00', '01', 'd9d9f7', '6161', '8101', 'a0', 'f6', '4101', 'f7', 'f0'), 3, 4),
    'simple': (H('', '81', 'a1', 'c0', '9f'), H('e0', 'f3', 'f4', 'f5', 'f6', 'f7', 'f820', 'f8ff', 'ff', '20', '00'), 3, 4),
    'keys': (H('a1', 'a2', 'bf', 'a1a1', 'a181'), H('01', '20', '6161', '6122', '610a', '4161', 'f5', 'f6', 'f7', 'e1', 'f93c00', 'f97c00', 'fb3ff8000000000000', 'a0', 'a101', '80', '8101', '816122', 'c101', 'ff'), 3, 3),
}


def jtext(ev, words=False, keys=False):
    """events of a text -> canonical value (of either kind of node), None with equal keys"""
    ev = [e[1:] if e[0] == 'kn' else ['s'] + e[1:] + ['key'] if e[0] == 'k' else e for e in ev]
    pos = 0

    def item():
        nonlocal pos
        e = ev[pos]
        pos += 1
        if e[0] in '[{':
            o = []
            while ev[pos][0] not in ']}':
                o.append(item())
            pos += 1
            if e[0] == '[':
                return '[' + ','.join(o) + ']'
            ks = [k.replace('r8000000000000000', 'r0000000000000000') for k in o[::2]]
            if len(set(ks)) * 2 != len(o) or any('rnan' in k for k in ks):
                raise Dup()
            return '{' + ','.join(sorted(a + ':' + b for a, b in zip(o[::2], o[1::2]))) + '}'
        if words and e[0] == 's' and (keys or len(e) == 2):
            t = bytes(e[1]).decode('latin-1')
            if t in ('inf', '-inf', 'nan', '-nan'):
                return rtxt(float(t))
        return tok(e[:2] if e[0] in ('s', 'u', 'i', 'r') else e)
    try:
        return item()
    except Dup:
        return None


def intact(dump):
    """are texts of both formats equally expressive about this value?"""
    if re.search(r'r|t\d|b|x|undef', re.sub(r'true|s[0-9a-f]*', '', dump)):
        return False
    return all(k[:1] in 's' or k == '' for k in re.findall(r'(?:\{|,)([^,{}\[\]:]*):', dump)) and not re.search(r'[\]}]:', dump)


def pair_ok(c, j):
    k, p = c[0], c[1]
    v = uint(p) if k == 'u' else -1 - uint(p) if k == 'i' else p if k == 'x' else real(p)
    t = bytes(j[1]).decode('latin-1')
    if v != v:
        return t == 'nan' or t.lower().lstrip('-') == 'nan'
    if v in (float('inf'), float('-inf')):
        return t == ('inf' if v > 0 else '-inf') or t == ('Infinity' if v > 0 else '-Infinity')
    if k == 'f':
        try:
            return dbits(float(t)) == dbits(v) and j[0] != 's'
        except ValueError:
            return False
    return j[0] in 'ui' and int(t) == v


class Rows:
    """(item, text) pairs that must denote the same value"""
    def __init__(self):
        self.rows = {}

    def add(self, c, j, why):
        with LOCK:
            self.rows.setdefault((c, j), why)

    def check(self, rep, o, part, sig):
        rows = list(self.rows)
        if not rows:
            return
        out = tlc('NodeConv', dict(JOpt=dict(o, dep=0)), ['Out'], files={'corpus.ndjson': ''.join(json.dumps([list(c), list(j)]) + '\n' for c, j in rows)}, stats=rep.stats)
        if len(out) != len(rows):
            raise CheckError('conversions: %d of %d judged' % (len(out), len(rows)))
        for _, d, v in out:
            c, j = rows[d - 1]
            why = None
            if v[0] != 'ok':
                why = {'no item': 'the item is not well-formed', 'no text': 'the text is not well-formed'}.get(v[0], 'they do not denote the same value')
            else:
                for a, b in v[1]:
                    if not pair_ok(a, b):
                        why = 'the number %s became %s' % (leaf(('leaf', a[0], a[1])), bytes(b[1]).decode('latin-1'))
                        break
            if why:
                src = self.rows[(c, j)]
                rep.violation('%s:%s' % (sig, src[0]), '%s: %s / %r: %s' % (src[1], c.hex(), j.decode('latin-1'), why), {'item_hex': c.hex(), 'text_hex': j.hex(), 'from': src[1]})
        rep.part(part, conversions=len(rows))
        rep.traces += len(rows)


def utf8(dump):
    for h in re.findall(r's([0-9a-f]*)', dump):
        try:
            bytes.fromhex(h).decode()
        except (UnicodeDecodeError, ValueError):
            return False
    return True


def written(rep, rows, sig, kind, x, src, res, label):
    """one value in both formats"""
    f = res.split(' ')          # dump, item, text, read back from the item, from the text
    def bad(why):
        rep.violation('%s:%s:%s' % (sig, kind, x.hex()), '%s read as %s (%s): %s' % (src, kind, label, why), {'input_hex': x.hex(), 'kind': kind, 'build': label, 'got': res})
    if len(f) != 5:
        return bad(res)
    dump, c, j, rc, rj = f
    if c[0] != 'c':
        return bad('not written as CBOR: %s' % c)
    if not utf8(dump):
        return              # text that is not UTF-8 has no JSON form
    if j[0] != 'j':
        return bad('not written as JSON: %s' % j)
    c, j = bytes.fromhex(c[1:]), bytes.fromhex(j[1:])
    if rc != 'same' and not (rc.startswith('differs') and '{' in dump and 'rnan' in dump):
        bad('written as CBOR %s it reads back as %s' % (c.hex(), rc))
    if intact(dump) and rj != 'same':
        bad('written as JSON %r it reads back as %s' % (j, rj))
    why = ('%s:%s' % (kind, x.hex()), '%s read as %s (%s)' % (src, kind, label))
    rows.add(c, j, why)
    return c, j


def from_json(rep, bins, o, rows, part, exps, op='J', words=False, ordered=True):
    docs = list(exps)
    want = {x: jtext(e.ev, words, o['key'] == 'b') if e.ok else None for x, e in exps.items()}
    for label, b in bins:
        for x, r in zip(docs, run_cases(b, ['%s\t%s' % (op, hexs(x)) for x in docs])):
            e = exps[x]
            if r == 'SKIPPED':
                continue
            rs = r.split('|')
            for kind, g in zip(KINDS, rs if len(rs) == 4 else [r] * 4):
                w = None
                if g.startswith('err '):
                    if e.ok:
                        w = 'refused (%s), must read %s' % (g, want[x])
                    elif not 0 <= int(g.split(' ')[1]) <= e.n:
                        w = 'error reported at %s, beyond the first impossible byte %d' % (g.split(' ')[1], e.n)
                elif g.startswith('ok '):
                    _, n, rest = g.split(' ', 2)
                    if not e.ok:
                        w = 'accepted (%s), must be refused' % g
                    elif int(n) != e.n:
                        w = 'end reported at %s, must be %d' % (n, e.n)
                    elif want[x] is not None and rest.split(' ')[0] != want[x]:
                        w = 'value %s, must be %s' % (rest.split(' ')[0], want[x])
                    else:
                        cj = written(rep, rows, 'written', kind, x, repr(x.decode('latin-1')), rest, label)
                        if cj and 'ordered' in kind and not words and want[x] is not None:      # what was written is what was given
                            rows.add(cj[0], x[:e.n], ('%s:%s' % (kind, x.hex()), '%r read as %s (%s), written as CBOR' % (x.decode('latin-1'), kind, label)))
                else:
                    w = g
                if w:
                    rep.violation('%s:%s:%s' % ('nans' if words else 'text', kind, x.hex()), '%r as %s (%s): %s' % (x.decode('latin-1'), kind, label, w), {'input_hex': x.hex(), 'kind': kind, 'build': label, 'got': g})
        rep.traces += len(docs)
    rep.part(part, documents=len(docs), accepted=sum(e.ok for e in exps.values()), replays=len(docs) * len(bins) * 4)


def from_cbor(rep, bins, o, rows, part, exps):
    docs = list(exps)
    for label, b in bins:
        for x, r in zip(docs, run_cases(b, ['C\t%s' % hexs(x) for x in docs])):
            e = exps[x]
            if r == 'SKIPPED':
                continue
            rs = r.split('|')
            for kind, g in zip(KINDS, rs if len(rs) == 4 else [r] * 4):
                rest = None
                if g.startswith('ok '):
                    _, n, rest = g.split(' ', 2)
                    w = check_cread(e, 'ok %s %s' % (n, rest.split(' ')[0].replace(',', ' ')), 'J' if kind[0] == 'j' else 'C', len(x))
                else:
                    w = check_cread(e, g, 'J' if kind[0] == 'j' else 'C', len(x))
                if w:
                    rep.violation('item:%s:%s' % (kind, x.hex()), '%s as %s (%s): %s' % (x.hex(), kind, label, w), {'input_hex': x.hex(), 'kind': kind, 'build': label, 'got': g})
                elif rest and not e.unjudged():
                    cj = written(rep, rows, 'written', kind, x, x.hex(), rest, label)
                    if cj and 'ordered' in kind and e.text('C') is not None and e.text('J') is not None:
                        rows.add(x[:e.n], cj[1], ('%s:%s' % (kind, x.hex()), '%s read as %s (%s), written as JSON' % (x.hex(), kind, label)))
        rep.traces += len(docs)
    rep.part(part, documents=len(docs), accepted=sum(e.ok for e in exps.values()), replays=len(docs) * len(bins) * 4)


NAN_DOCS = [t.encode() for t in ('"inf"', '"-inf"', '"nan"', '"-nan"', '["-nan"]', '{"-nan":"-nan"}', '"Inf"', '"infx"', '"in"', '"NaN"', '"--nan"', '""', '["inf","nan",1]', '{"a":"inf"}', '{"a":"-inf","b":["nan"]}', '{"inf":1}', '{"nan":"nan"}', '{"-inf":{"inf":"x"}}',
            '["\\u0069nf"]', '"inf ', '"nan', '["inf"', '[["-inf"],{"k":"-inf"}]', '"infinity"', '"-"', '"n"', '{"in":"na"}', 'inf', '[nan]', '-inf', '{"inf":"inf","x":"-inf"}')]


def run(rep, tier):
    th = tier == 'thorough'
    bs = build_many([dict(source='conv', std='20', defs=['VH_NANS'], opt='-O1'), dict(source='conv', std='20', defs=['VH_QU=0', 'VH_NANS'], opt='-O1')] +
                    ([dict(source='conv', std='11', defs=[], opt='-O1')] if th else []))
    plain, keyed = [('c++20', bs[0])] + ([('c++11', bs[2])] if th else []), [('c++20, any keys', bs[1])]
    jq, jb = opt(), opt(key='b')
    rq, rb = Rows(), Rows()
    jobs = []
    for n, (pre, toks, q, t) in JA.items():
        jobs.append(lambda n=n, pre=pre, toks=toks, k=t if th else q: from_json(rep, plain, jq, rq, 'JSON ' + n, gen(rep, jq, pre, toks, k)))
    for n, (pre, toks, q, t) in JKEYS.items():
        jobs.append(lambda n=n, pre=pre, toks=toks, k=t if th else q: from_json(rep, keyed, jb, rb, 'JSON ' + n, gen(rep, jb, pre, toks, k)))
    for n, (pre, toks, q, t) in CA.items():
        def one(n=n, pre=pre, toks=toks, k=t if th else q):
            e = cgen(rep, STDC, pre, toks, k)
            from_cbor(rep, plain, jq, rq, 'CBOR ' + n, e)
            from_cbor(rep, keyed, jb, rb, 'CBOR ' + n, e)
        jobs.append(one)
    parallel(jobs, 4)
    for o, r, b, l in ((jq, rq, plain[:1], ''), (jb, rb, keyed, ' (any keys)')):
        from_json(rep, b, o, r, 'extracted NaNs' + l, dict(zip(NAN_DOCS, run_machine(rep, o, NAN_DOCS))), op='JN', words=True)
    rq.check(rep, jq, 'both formats', 'conv')
    rb.check(rep, jb, 'both formats (any keys)', 'convk')
