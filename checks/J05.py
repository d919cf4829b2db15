"""JSON writing produces well-formed JSON that denotes the written value."""
from jsonlib import *
from fractions import Fraction
from J03 import rows_of, units, SHORT
from docs import random_json, suite_files

PRECS = (0, 1, 2, 3, 6, 7, 9, 10, 15, 16, 17, 18, 20, 25, 30)
DEF = {'d': 17, 'f': 9}


class Judge:
    """texts written by the library are collected, run through the reader machine, and only then judged"""
    def __init__(self, rep, o=STD):
        self.rep, self.o, self.items = rep, o, []

    def add(self, text, fn):
        self.items.append((text, fn))

    def flush(self, part):
        texts = list(dict.fromkeys(t for t, _ in self.items))
        got = dict(zip(texts, run_machine(self.rep, self.o, texts)))
        for t, fn in self.items:
            e = got[t]
            if not e.wf or e.n != len(t):
                e = None
            fn(e)
        self.rep.part(part, written_texts=len(texts))
        self.rep.traces += len(self.items)
        self.items = []


def show(t):
    return t.decode('latin-1')


def strings(rep, rows, bins, part, js=False):
    """rows: {document: (mode, end, [utf8, utf16, codes])}: every string denoted is written through every type"""
    vals = {}
    for m, n, s in rows.values():
        if m == 'done' and s:
            vals.setdefault(bytes(s[0]), s)
    keys = list(vals)
    J = Judge(rep)
    for label, b in bins:
        res = run_cases(b, ['S\t%s\t%s\t%s' % tuple(units(x) for x in vals[k]) for k in keys])
        rep.part(part, strings=len(keys), replays=len(keys))
        for k, r in zip(keys, res):
            u8, u16, cs = vals[k]
            for tg, g in split_groups(r):
                if g == 'SKIPPED':
                    continue
                for t in tg.split(','):
                    kind = t[0]
                    def bad(what, t=t, g=g, k=k, label=label):
                        rep.violation('string:%s:%s' % (t, k.hex()), '%r as %s (%s): %s' % (k.decode('utf-8', 'replace'), t, label, what),
                                      {'utf8_hex': k.hex(), 'target': t, 'build': label, 'got': g})
                    if tg == 'all':
                        bad(g)
                        break
                    f = g.split(' ')
                    if f[0] != 'ok':
                        bad('cannot be written (%s)' % g)
                        continue
                    w = bytes.fromhex(f[1])
                    if len(f) > 2 and kind not in 'no' and f[2] != 'same':
                        # a narrow character is a byte: only ASCII ones are characters by themselves
                        if not (kind in 'cm' and t[1:] in ('8', 'u') and k[0] > 0x7f):
                            bad('written as %r, which reads back %s' % (show(w), f[2]))
                    if len(f) > 2 and kind in 'no' and f[2] != 'same':
                        bad('written as %r, which reads back %s' % (show(w), f[2]))
                    if js and (b'\xe2\x80\xa8' in w or b'\xe2\x80\xa9' in w):
                        bad('written with a raw line separator: %r' % show(w))
                    S = ['s', list(k)]
                    K = ['k', list(k)]
                    want = {'s': [S], 'p': [S], 'w': [S], 'c': [S], 'n': [S], 'k': [['{'], K, ['u', [49]], ['}']], 'm': [['{'], K, ['u', [49]], ['}']],
                            'o': [['{'], K, ['u', [49]], ['}']], 'v': [['['], S, ['s', []], S, [']']]}[kind]
                    def fin(e, bad=bad, want=want, w=w):
                        if not e:
                            bad('written as %r, which is not a JSON text' % show(w))
                        elif e.ev != want:
                            bad('written as %r, which denotes something else' % show(w))
                    J.add(w, fin)
    J.flush(part)
    if keys:
        rep.sample({'part': part, 'string': keys[len(keys) // 2].decode('utf-8', 'replace')}, 20)


def bytewise(rep, bins):
    J = Judge(rep)
    for label, b in bins:
        res = run_cases(b, ['S\t%02x\t-\t-' % c for c in range(256)])
        for c, r in zip(range(256), res):
            for tg, g in split_groups(r):
                for t in set(tg.split(',')) & {'c8', 'm8'}:
                    def bad(what, t=t, c=c, g=g, label=label):
                        rep.violation('char:%s:%02x' % (t, c), 'char %02x as %s (%s): %s' % (c, t, label, what), {'char': c, 'target': t, 'build': label, 'got': g})
                    f = g.split(' ')
                    if f[0] != 'ok' or f[2] != 'same':
                        bad(g)
                        continue
                    J.add(bytes.fromhex(f[1]), lambda e, bad=bad: e or bad('is not written as a JSON text'))
    J.flush('single characters')
    for label, b in bins[:1]:
        for tg, g in split_groups(run_cases(b, ['M'])[0]):
            for t in tg.split(',') if tg == 'all' else re.findall(r'(?:^|,)((?:variant<[^>]*>|optional<[^>]*>):\w+)', tg):
                def bad(what, t=t, g=g):
                    rep.violation('key:%s' % t, 'map key %s: %s' % (t, what), {'key': t, 'got': g})
                f = g.split(' ')
                if f[0] != 'ok' or f[2] != 'same':
                    bad(g)
                    continue
                J.add(bytes.fromhex(f[1]), lambda e, bad=bad, f=f: e or bad('written as %s, which is not a JSON text' % show(bytes.fromhex(f[1]))))
    J.flush('keys of several shapes')


def digits(text):
    m = text.lstrip('-').lower().partition('e')[0].replace('.', '').lstrip('0')
    return len(m.rstrip('0'))


def frac(text):
    t = text.lower()
    m, _, e = t.partition('e')
    i, _, f = m.partition('.')
    return Fraction(int(i + f)) * Fraction(10) ** (int(e or '0') - len(f))


def unit(x, p):
    """the unit of the last of p significant digits of x"""
    x = abs(x)
    e = len(str(x.numerator)) - len(str(x.denominator))
    while Fraction(10) ** e > x:
        e -= 1
    while Fraction(10) ** (e + 1) <= x:
        e += 1
    return Fraction(10) ** (e - p + 1)


def floats(rep, vals, bins, part):
    """vals: list of ('d'/'f', bits)"""
    J = Judge(rep)
    for label, b in bins:
        res = run_cases(b, ['F\t%s\t%s' % v for v in vals])
        rep.part(part, numbers=len(vals), replays=len(vals))
        for (t, h), r in zip(vals, res):
            x = struct.unpack('>d' if t == 'd' else '>f', bytes.fromhex(h))[0]
            fin = x == x and abs(x) != float('inf')
            for names, g in split_groups(r):
                if g == 'SKIPPED':
                    continue
                for nm in names.split(','):
                    def bad(what, nm=nm, g=g, t=t, h=h, label=label, x=x):
                        rep.violation('float:%s:%s:%s' % (t, nm, h), '%r (%s, precision %s, %s): %s' % (x, t, nm, label, what), {'type': t, 'bits': h, 'precision': nm, 'build': label, 'got': g})
                    if names == 'all' or not g.startswith('ok'):
                        bad(g)
                        break
                    f = g.split(' ')
                    w = bytes.fromhex(f[1])
                    if len(f) > 2 and f[2] != 'same' and not (x != x and f[2] == 'differs'):
                        bad('written as %r, which reads back %s' % (show(w), f[2]))
                    p = int(nm) if nm.isdigit() else 0
                    def judge(e, bad=bad, w=w, nm=nm, p=p, t=t, x=x, fin=fin):
                        if not e:
                            return bad('written as %r, which is not a JSON text' % show(w))
                        ev = e.ev
                        if nm == 'k':
                            if len(ev) != 4 or ev[1][0] != 'k':
                                return bad('written as %r, which denotes something else' % show(w))
                            tx = bytes(ev[1][1])
                        elif nm == 'v':
                            if len(ev) != 4 or ev[1] != ev[2]:
                                return bad('written as %r, which denotes something else' % show(w))
                            tx = bytes(ev[1][1])
                        else:
                            if len(ev) != 1 or ev[0][0] not in ('uirs' if not fin else 'uir'):
                                return bad('written as %r, which denotes something else' % show(w))
                            tx = bytes(ev[0][1])
                        tx = tx.decode()
                        if not fin:
                            sg = '-' if struct.pack('>d', x)[0] & 0x80 else ''
                            wt = sg + ('nan' if x != x else 'inf')
                            if tx != wt and x == x:
                                bad('written as %r, must be %s' % (show(w), wt))
                            return
                        if not re.fullmatch(r'-?\d+(\.\d+)?([eE][+-]?\d+)?', tx):
                            return bad('written as %r, not a number' % show(w))
                        v, y = frac(tx), Fraction(x)
                        if (tx[0] == '-') != (struct.pack('>d', x)[0] & 0x80 != 0):
                            return bad('written as %r: the sign differs' % show(w))
                        q = p or DEF[t]
                        if digits(tx) > q:
                            return bad('written as %r, with more than %d digits' % (show(w), q))
                        if y == 0:
                            if v != 0:
                                bad('written as %r' % show(w))
                        elif 2 * abs(v - y) > unit(y, q):
                            bad('written as %r, off by more than half a unit of its last of %d digits' % (show(w), q))
                        # by default and with enough digits the value itself is denoted
                        if q >= DEF[t] and (float(tx) != x if t == 'd' else struct.pack('>f', float(tx)).hex() != struct.pack('>f', x).hex()):
                            bad('written as %r, which is a different number' % show(w))
                    J.add(w, judge)
    J.flush(part)


def ints(rep, bins, th):
    SZ = [('signed char', 8, 1), ('unsigned char', 8, 0), ('short', 16, 1), ('unsigned short', 16, 0), ('int', 32, 1), ('unsigned int', 32, 0), ('long', 64, 1), ('unsigned long', 64, 0), ('long long', 64, 1), ('unsigned long long', 64, 0)]
    nm = {'unsigned int': 'unsigned'}
    cases = [('bool', 0), ('bool', 1)]
    rng = random.Random(SEED)
    for t, n, s in SZ:
        lo, hi = (-(1 << n - 1), (1 << n - 1) - 1) if s else (0, (1 << n) - 1)
        vs = {lo, hi, 0, 1, lo + 1, hi - 1} | {10 ** k + d for k in range(20) for d in (-1, 0, 1)} | {-10 ** k + d for k in range(20) for d in (-1, 0, 1)} | {(1 << k) + d for k in range(64) for d in (-1, 0)} | {-(1 << k) + d for k in range(64) for d in (0, 1)}
        if n == 8:
            vs |= set(range(-128, 256))
        if th and n == 16:
            vs |= set(range(-32768, 65536))
        vs |= {rng.randrange(lo, hi + 1) for _ in range(200)}
        cases += [(nm.get(t, t), v) for v in sorted(vs) if lo <= v <= hi]
    J = Judge(rep)
    for label, b in bins:
        res = run_cases(b, ['I\t%s\t%d' % (t.replace(' ', '_'), v) for t, v in cases])
        for (t, v), r in zip(cases, res):
            def bad(what, t=t, v=v, r=r, label=label):
                rep.violation('int:%s:%d' % (t, v), '%d as %s (%s): %s' % (v, t, label, what), {'type': t, 'value': str(v), 'build': label, 'got': r})
            if not r.startswith('ok '):
                bad(r)
                continue
            w = bytes.fromhex(r[3:])
            want = [['true' if v else 'false']] if t == 'bool' else [['i' if v < 0 else 'u', list(str(v).encode())]]
            def fin(e, bad=bad, want=want, w=w):
                if not e or e.ev != want:
                    bad('written as %r' % show(w))
            J.add(w, fin)
    rep.part('integers', values=len(cases))
    J.flush('integers')


def valtok(t):
    """numbers by value"""
    k = t[0] == 'k' and t[1:2] in ('u', 'i', 'r') and 'k' or ''
    u = t[len(k):]
    if u[0] in 'ui' and u[1:].lstrip('-').isdigit():
        return k + 'n' + str(Fraction(int(u[1:])))
    if u[0] == 'r' and len(u) == 17:
        return k + 'n' + str(Fraction(struct.unpack('>d', bytes.fromhex(u[1:]))[0]))
    return t


def same_value(a, b):
    return [valtok(x) for x in a.split(' ')] == [valtok(x) for x in b.split(' ')]


def nodes(rep, exps, bins, part):
    """dynamic values denoted by accepted documents are built and written"""
    vals = {}
    for e in exps:
        if e.ok and e.txt:
            vals.setdefault(e.txt, e)
    keyed = {e.keyed(): None for e in vals.values() if e.keyed()}
    J = Judge(rep)
    for label, b in bins:
        for op, vs in (('W', list(vals)), ('V', list(keyed))):
            res = run_cases(b, ['%s\t%s' % (op, v) for v in vs])
            rep.part(part, values=len(vs), replays=len(vs))
            for v, r in zip(vs, res):
                if r == 'SKIPPED':
                    continue
                def bad(what, v=v, r=r, label=label, op=op):
                    rep.violation('node:%s:%s' % (op, v[:200]), '%s (%s, %s): %s' % (v[:200], op, label, what), {'value': v, 'build': label, 'op': op, 'got': r[:2000]})
                if not r.startswith('ok '):
                    bad(r[:300])
                    continue
                f = r.split(' ', 3)
                w = bytes.fromhex(f[1])
                if f[2] != 'read' or not same_value(f[3], v):
                    bad('written as %r, which reads back as %s' % (show(w)[:300], ' '.join(f[2:])[:300]))
                def fin(e, bad=bad, v=v, w=w):
                    if not e:
                        bad('written as %r, which is not a JSON text' % show(w)[:300])
                    elif not same_value(e.txt, v):
                        bad('written as %r, which denotes %s' % (show(w)[:300], e.txt[:300]))
                J.add(w, fin)
    J.flush(part)
    vs = list(vals)
    if vs:
        rep.sample({'part': part, 'value': vs[len(vs) // 2][:300]}, 20)


def float_values(rng, n):
    import math
    out = []
    def d(x):
        out.append(('d', dbits(x)))
    def f(x):
        try:
            out.append(('f', fbits(x)))
        except OverflowError:
            pass
    sp = [0.0, -0.0, 1.0, -1.0, 0.1, 0.5, 1 / 3, 2 / 3, 1e21, 1e22, 1e23, 9.5, 0.95, 99.5, 999999.5, 123456789.0, 2.5, 3.5, 0.00001234, 1e-5, 1e-4, 1e5, 1e6, 1e16, 1e17, 1e15, 5e-324, 2.2250738585072014e-308, 2.225073858507201e-308,
          1.7976931348623157e308, 1.17549435e-38, 1.4e-45, 3.4028234663852886e38, 16777216.0, 16777217.0, 9007199254740993.0, 4.35, 0.000123456789, float('inf'), float('-inf'), float('nan'), 1.0000000000000002, 0.30000000000000004, 123456.7890625, 6.02214076e23]
    for x in sp:
        for s in (1, -1):
            d(x * s)
            f(x * s)
    out += [('d', 'fff8000000000000'), ('f', 'ffc00000'), ('d', '7ff0000000000001'), ('f', '7f800001'), ('d', '0000000000000001'), ('d', '000fffffffffffff'), ('f', '00000001'), ('f', '007fffff')]
    for e in range(-330, 312, 3 if n < 1000 else 1):
        x = float('1e%d' % e)
        d(x)
        d(math.nextafter(x, 0))
        d(float('9.9999999999999995e%d' % (e if e < 308 else 307)))
        if -46 <= e <= 38:
            f(x)
    for _ in range(n):
        h = '%016x' % rng.getrandbits(64)
        if h[:3] not in ('7ff', 'fff'):
            out.append(('d', h))
        h = '%08x' % rng.getrandbits(32)
        if int(h, 16) & 0x7f800000 != 0x7f800000:
            out.append(('f', h))
        d(rng.randrange(10 ** rng.randrange(1, 18)) / 10 ** rng.randrange(0, 18))
        f(rng.randrange(10 ** rng.randrange(1, 9)) / 10 ** rng.randrange(0, 9))
    return list(dict.fromkeys(out))


def run(rep, tier):
    th = tier == 'thorough'
    b20, b11, j20, j11 = build_many([dict(source='jwr', std='20', opt='-O0'), dict(source='jwr', std='11', opt='-O0'), dict(source='jwr', std='20', opt='-O0', defs=('VH_JS=1',)), dict(source='jwr', std='17', opt='-O0', defs=('VH_JS=1',))])
    bins = [('c++20', b20), ('c++11', b11)]
    jbins = [('c++20 strict javascript', j20), ('c++17 strict javascript', j11)]
    o = dict(Opt=STD)
    rng = random.Random(SEED)
    # strings: every character in every neighbourhood
    toks = T('a', '\\"', '\\\\', '\\u0000', '\\u001f', '\\n', '\\u0080', '\xe2\x80\xa8', '\xe2\x80\xa9', '\xf0\x9f\x98\x80', '\x7f', '/', '0123456789abcdef', '\xe2\x80\xaf')
    rows = rows_of(tlc('StrGen', dict(o, Prefixes=[b'"', b'"0123456789abc'] if th else [b'"'], Tokens=toks, MaxTok=4 if th else 3), ['OutStr', 'Sane'], stats=rep.stats))
    strings(rep, rows, bins, 'sequences of characters')
    strings(rep, rows, jbins, 'sequences of characters (strict javascript)', js=True)
    # every offset in a block
    docs = []
    sel = [0, 1, 0x1f, 0x22, 0x5c, 0x2f, 8, 9, 10, 12, 13, 0x20, 0x7f, 0x80, 0x7ff, 0x800, 0x2027, 0x2028, 0x2029, 0x202a, 0xd7ff, 0xe000, 0xffff, 0x10000, 0x12028, 0x10ffff]
    for k in range(0, 70) if th else list(range(0, 19)) + [30, 31, 32, 33, 47, 48]:
        for c in sel:
            body = b'\\u%04x' % c if c < 0x10000 else b'\\u%04x\\u%04X' % (0xd800 + ((c - 0x10000) >> 10), 0xdc00 + (c & 0x3ff))
            docs += [b'"' + b'p' * k + body + b'q' * j + b'"' for j in ((0, 1, 15, 16, 17) if th else (0, 16))]
    corpus = ''.join(json.dumps(list(x)) + '\n' for x in docs)
    r = tlc('StrRun', o, ['Out', 'Sane'], files={'corpus.ndjson': corpus}, stats=rep.stats)
    rows = {docs[x[1] - 1]: (x[2], x[3], x[4]) for x in r}
    strings(rep, rows, bins, 'every offset in a block')
    strings(rep, rows, jbins, 'every offset in a block (strict javascript)', js=True)
    if th:
        rg = [(a, min(a + 0x1fff, 0x10ffff), 1) for a in range(0, 0x110000, 0x2000)]
    else:
        rg = [(0, 0x17f, 1), (0x7f0, 0x80f, 1), (0x2020, 0x2030, 1), (0xd7f0, 0xd7ff, 1), (0xe000, 0xe010, 1), (0xfff0, 0x1000f, 1), (0x10fff0, 0x10ffff, 1), (0x180, 0xffff, 131), (0x10000, 0x10ffff, 2003)]
    for i in range(0, len(rg), 8):
        rows = rows_of(tlc('CodePoints', dict(o, Ranges=rg[i:i + 8]), ['Out'], stats=rep.stats))
        strings(rep, rows, bins, 'code points')
        if th or i == 0:
            strings(rep, rows, jbins, 'code points (strict javascript)', js=True)
    # single characters are bytes: those beyond ASCII are no characters by themselves
    bytewise(rep, bins)
    # numbers
    ints(rep, bins, th)
    floats(rep, float_values(rng, 4000 if th else 250), bins, 'floating-point values')
    # dynamic values
    exps = gen(rep, STD, T(''), T('[', ']', '{', '}', ',', '"a":', '"":', '"b"', '1', '-1', '0.5', 'null', 'true', 'false'), 7 if th else 5)
    nodes(rep, exps.values(), bins, 'dynamic values')
    docs = [random_json(rng) for _ in range(4000 if th else 700)] + suite_files(2048)
    nodes(rep, run_machine(rep, STD, docs), bins, 'dynamic values of random documents')
    rep.assumptions += ['decimal texts of floating-point values are judged outside TLC with exact rationals',
                        'typed containers, classes, variants and optionals are written and judged under T01, T02, T04 and J07']
