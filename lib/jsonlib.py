"""JSON side: alphabets for the reader machine, expected outcomes, comparison with the library."""
from util import *
from fractions import Fraction
import itertools

STD = dict(cm=False, ts=False, jn=False, sep=44, div=58, dep=64, key='q', top=False)


def opt(**kw):
    d = dict(STD)
    d.update(kw)
    return d


def num_of(text):
    """text bytes -> ('ok', float) / ('over', None) / ('under', None)"""
    t = bytes(text).decode()
    if t in ('NaN', '-NaN'):
        return 'nan', float('nan')
    if t in ('Infinity', '-Infinity'):
        return 'ok', float(t)
    f = float(t)
    if f in (float('inf'), float('-inf')):
        return 'over', None
    if f == 0 and any(c in '123456789' for c in t.lower().split('e')[0]):
        return 'under', None
    return 'ok', f


def tok(e):
    """one event of the specification as the harness prints it; None when the number cannot be represented"""
    k = e[0]
    if k in ('[', ']', '{', '}', 'null', 'true', 'false'):
        return k
    if k in ('k', 's'):
        return k + bytes(e[1]).hex()
    if k in ('u', 'i'):
        return k + str(int(bytes(e[1]).decode()))
    if k == 'r':
        st, f = num_of(e[1])
        if st == 'nan':
            return 'r-nan' if e[1][0] == 45 else 'rnan'
        if st != 'ok':
            return None
        return 'r' + dbits(f)
    if k == 'kn':               # a key that is not a string
        t = tok(e[1:])
        return None if t is None else 'k' + t
    raise CheckError('event %r' % (e,))


class Dup(Exception):
    pass


def tree(ev):
    """flat events -> nested ('arr',[..]) / ('obj',[(key tokens, value)..]) / ('leaf', tok)"""
    st = [('arr', [])]
    keys = []
    for e in ev:
        k = e[0]
        if k == '[':
            st.append(('arr', []))
            continue
        if k == '{':
            st.append(('obj', []))
            continue
        if k in (']', '}'):
            v = st.pop()
        elif k == 'kn':
            raise Dup()
        elif k == 'k':
            keys.append(tok(e))
            continue
        else:
            v = ('leaf', tok(e))
        top = st[-1]
        if top[0] == 'arr':
            top[1].append(v)
        else:
            top[1].append((keys.pop(), v))
    return st[0][1][0]


def flat(t, out, keyed):
    if t[0] == 'leaf':
        out.append(t[1])
    elif t[0] == 'arr':
        out.append('[')
        for v in t[1]:
            flat(v, out, keyed)
        out.append(']')
    else:
        out.append('{')
        m = t[1]
        if keyed:
            if len({k for k, _ in m}) != len(m):
                raise Dup()
            m = sorted(m, key=lambda kv: bytes.fromhex(kv[0][1:]))
        for k, v in m:
            out.append(k)
            flat(v, out, keyed)
        out.append('}')
    return out


NUM_LEN = 64


class Exp:
    """expected outcome of reading a dynamic value"""
    __slots__ = ('ok', 'wf', 'n', 'ev', 'r', 'txt', 'long')

    def __init__(self, m, n, ev, r=''):
        self.n, self.r, self.ev = n, r, ev
        self.ok = self.wf = m == 'done'     # wf: well-formed, whether or not its numbers can be held
        self.txt = None
        # a number longer than the default number buffer may be refused where the bytes have to be copied
        self.long = any(e[0] in 'uir' and len(e[1]) > NUM_LEN - 2 for e in ev if len(e) > 1)
        toks = [tok(e) for e in ev]
        if None in toks:
            self.ok = False
        if self.ok:
            self.txt = ' '.join(toks)

    def keyed(self):
        try:
            return ' '.join(flat(tree(self.ev), [], True))
        except Dup:
            return None


def check_read(exp, got, keyed=False, contiguous=False):
    """got: one delivery's result; returns None or what is wrong"""
    if got.startswith('ok '):
        _, n, txt = got.split(' ', 2)
        if not exp.ok:
            return 'accepted (%s), must be refused' % got
        if int(n) != exp.n:
            return 'end reported at %s, must be %d' % (n, exp.n)
        want = exp.keyed() if keyed else exp.txt
        if want is None:
            return None
        if txt != want:
            return 'value %s, must be %s' % (txt, want)
        return None
    if got.startswith('err '):
        if exp.ok:
            if exp.long and not contiguous and got.endswith('cxon/json/read:8'):
                return None
            return 'refused (%s), must read %s' % (got, exp.txt)
        n = int(got.split(' ')[1])
        if not 0 <= n <= exp.n:
            return 'error reported at %d, beyond the first impossible byte %d' % (n, exp.n)
        if exp.r == 'depth' and 'cxon/node:2' not in got:
            return 'refused with %s, must be the depth error' % got
        return None
    return got


def split_groups(res):
    """'p1,p2=r | p3=r' -> [(paths, r)]"""
    if res.startswith(('CRASH', 'SKIPPED', 'NOOP', 'EXC', 'OOB', 'STALE')):
        return [('all', res)]
    out = []
    for g in res.split(' | '):
        p, r = g.split('=', 1)
        out.append((p, r))
    return out


T = lambda *xs: [x if isinstance(x, bytes) else x.encode('latin-1') for x in xs]

ALPH = {
    # name: (prefixes, tokens, quick MaxTok, thorough MaxTok)
    'structure': (T(''), T('[', ']', '{', '}', ',', ':', '"a"', '1', 'true', ' '), 8, 10),
    'members': (T('{', '[{', '{"a":['), T('"b":', '"":', '0', ',', '}', ']', '[', '{', 'null', '\n'), 5, 8),
    'numbers': (T('', '['), T('-', '0', '1', '9', '.', 'e', 'E', '+', ',', ' ', '308', '400'), 5, 6),
    'bignums': (T('-', '['), T('1844674407370955161', '922337203685477580', '0', '5', '6', '7', '8', '9', '.', 'e', '1', '00000000000000000000000', ']'), 4, 5),
    'strings': (T('"', '["', '{"'), T('"', '\\', 'u', '0', 'D8', 'dC', '9', 'a', '\x1f', ' ', '\x7f', '/', 'n', '\\u', '\\ud83d', '\\uDE00', ':'), 4, 5),
    'utf8': (T('"', '"abcdefghijklmnop'), T('\x80', '\x8f', '\x90', '\x9f', '\xa0', '\xbf', '\xc0', '\xc1', '\xc2', '\xdf', '\xe0', '\xe2', '\xed', '\xef', '\xf0', '\xf3', '\xf4', '\xf5', 'a', '"'), 3, 4),
    'literals': (T('', '['), T('n', 'u', 'l', 't', 'r', 'e', 'f', 'a', 's', 'N', 'I', ']', ',', 'nul', 'fals', 'tru'), 4, 5),
    'space': (T('', '[1', '{"a"'), T(' ', '\t', '\r', '\n', '\v', '\f', '\0', '/', '*', '//', '/*', '*/', ',', ':', '2', ']', '}', '"b"'), 3, 4),
}
# one representative input for every mode of the machine: each is followed by each of the 256 bytes
MODES = T('', ' ', '[', '[1', '[1,', '[1 ', '[[]', '[[],', '{', '{"a"', '{"a":', '{"a":1', '{"a":1,', '{"a" ', '{"', '{"a', '{"\\', '{"\\u', '{"\\ud8',
          '"', '"x', '"\\', '"\\u', '"\\u0', '"\\u00', '"\\u000', '"\\ud', '"\\ud8', '"\\ud83', '"\\udb', '"\\udbf', '"\\udc', '"\\ud800', '"\\ud800\\', '"\\ud800\\u',
          '"\\ud800\\ud', '"\\ud800\\udc', '"\\ud800\\udc0', '"\xc3', '"\xe0', '"\xe0\xa0', '"\xe2', '"\xe2\x82', '"\xed', '"\xed\x9f', '"\xf0', '"\xf0\x90', '"\xf0\x90\x80',
          '"\xf1', '"\xf1\x80\x80', '"\xf4', '"\xf4\x8f', '"\xf4\x8f\xbf', '{"\xc3', '{"\xe2\x82', '{"\xf0\x9f\x98', '-', '0', '-0', '1', '12', '-1', '0.', '1.', '1.5', '0e', '1e', '1E', '1e+', '1e-',
          '1e5', '1.5e', '1.5e3', 'n', 'nu', 'nul', 'null', 't', 'tr', 'tru', 'true', 'f', 'fa', 'fal', 'fals', 'false', '[n', '[t', '[f', '[-', '[0', '[1.', '[1e', '[1.5', '[1e5',
          '[null', '[true', '[false', '["a"', '[{}', '{"a":{}', '{"a":[]', '{"a":"', '{"a":"b"', '{"a":null', '{"a":t', '{"a":-1', '"0123456789abcde', '"0123456789abcdef',
          '"0123456789abcdef0123456789ABCDE', '"0123456789abcdef\\', '"\\n456789abcdefgh')
ALLBYTES = [bytes([b]) for b in range(256)]


def gen(rep, o, prefixes, tokens, maxtok, timeout=700):
    """behaviours of the reader machine: {input: Exp}"""
    r = tlc('JsonGen', dict(Opt=o, Prefixes=list(prefixes), Tokens=list(tokens), MaxTok=maxtok), ['Out', 'Sane'], ['Monotone'],
            stats=rep.stats, timeout=timeout)
    d = {}
    for _, inp, m, n, ev, why in r:
        b = bytes(inp)
        e = Exp(m, n, ev, why)
        if b in d and (d[b].ok, d[b].n, d[b].ev) != (e.ok, e.n, e.ev):
            raise CheckError('the machine is not deterministic on %r' % b)
        d[b] = e
    return d


def run_machine(rep, o, docs, timeout=700):
    """the machine over given byte strings -> list of Exp"""
    if not docs:
        return []
    corpus = ''.join(json.dumps(list(x)) + '\n' for x in docs)
    r = tlc('JsonRun', dict(Opt=o), ['Out', 'Sane'], files={'corpus.ndjson': corpus}, stats=rep.stats, timeout=timeout)
    out = [None] * len(docs)
    for _, d, m, n, ev, why in r:
        out[d - 1] = Exp(m, n, ev, why)
    if None in out:
        raise CheckError('machine run incomplete')
    return out


def replay_node(rep, exps, binaries, part, ops=('N', 'O'), mask=255, sigp=''):
    """replay {input: Exp} into dynamic values through every delivery path of every build"""
    docs = list(exps)
    for label, b in binaries:
        for op in ops:
            res = run_cases(b, ['%s\t%d\t%s' % (op, mask, hexs(x)) for x in docs])
            bad = 0
            for x, r in zip(docs, res):
                for paths, g in split_groups(r):
                    if g == 'SKIPPED':
                        continue
                    w = check_read(exps[x], g, keyed=op[0] == 'N', contiguous=paths == 'ptr')
                    if w:
                        bad += 1
                        if bad <= 20:
                            rep.violation('%sread:%s:%s' % (sigp, op, x.hex()), '%s (%s, %s, via %s): %s' % (x.decode('latin-1'), label, op, paths, w),
                                          {'input_hex': x.hex(), 'build': label, 'op': op, 'paths': paths, 'expected': {'ok': exps[x].ok, 'end': exps[x].n, 'value': exps[x].txt}, 'got': g})
            rep.traces += len(docs)
            rep.part(part, documents=len(docs) if (label, op) == (binaries[0][0], ops[0]) else 0, replays=len(docs))
    k = [x for x in docs if exps[x].ok]
    rep.part(part, accepted=len(k))
    if k:
        x = k[len(k) // 2]
        rep.sample({'part': part, 'input': x.decode('latin-1'), 'end': exps[x].n, 'value': exps[x].txt}, 30)
