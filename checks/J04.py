"""JSON numbers read into built-in types exactly, or are refused."""
from jsonlib import *
from fractions import Fraction
from functools import lru_cache

sys.set_int_max_str_digits(0)

SG = ['i8', 'i16', 'i32', 'i64', 'i64l']
UG = ['u8', 'u16', 'u32', 'u64']
LENIENT = re.compile(rb'[ \t\r\n]*(-?(?:\d+\.?\d*|\.\d+)(?:[eE][+-]?\d+)?)')
FMTS = {'f32': (24, 127, -126), 'f64': (53, 1023, -1022), 'f80': (64, 16383, -16382)}


@lru_cache(100000)
def exact(text):
    """text of a JSON number -> exact rational (huge exponents are cut, which cannot matter here)"""
    t = text.decode().lower()
    m, _, e = t.partition('e')
    i, _, f = m.partition('.')
    e = int(e or '0')
    d = int(i.lstrip('-') + f)
    e -= len(f)
    if d == 0:
        return Fraction(0)
    if len(str(d)) + e > 6000:
        return Fraction(10) ** 6000
    if len(str(d)) + e < -6000:
        return Fraction(1, 10 ** 6000)
    return d * Fraction(10) ** e


@lru_cache(300000)
def nearest(x, fmt):
    """nearest representable magnitude (ties to even): ('ok', m, e): m*2^e, or 'over' / 'under'"""
    p, emax, emin = FMTS[fmt]
    if x == 0:
        return 'ok', 0, 0
    n, d = x.numerator, x.denominator
    e = n.bit_length() - d.bit_length()
    if (Fraction(n, d) < Fraction(2) ** e):
        e -= 1
    q = max(e, emin) - (p - 1)
    s = x / Fraction(2) ** q
    m = s.numerator // s.denominator
    r = s - m
    if r > Fraction(1, 2) or (r == Fraction(1, 2) and m & 1):
        m += 1
    if m == 0:
        return 'under', 0, 0
    if m.bit_length() + q - 1 > emax:
        return 'over', 0, 0
    return 'ok', m, q


def bits(fmt, neg, m, q):
    if fmt == 'f32':
        v = struct.pack('>f', m * 2.0 ** q if m else 0.0)
        return '%08x' % (int.from_bytes(v, 'big') | (neg << 31))
    if fmt == 'f64':
        v = struct.pack('>d', float(m * Fraction(2) ** q) if m else 0.0)
        return '%016x' % (int.from_bytes(v, 'big') | (neg << 63))
    return neg, m * Fraction(2) ** q


def f80(txt):
    neg = txt.startswith('-')
    t = txt.lstrip('-')
    if not t.startswith('0x'):
        return t
    m, _, e = t[2:].partition('p')
    i, _, f = m.partition('.')
    return (1 if neg else 0), Fraction(int(i + f, 16)) * Fraction(2) ** (int(e) - 4 * len(f))


def tiny(x, fmt):
    """subnormal results: some conversions report these as underflow"""
    return x and x < Fraction(2) ** FMTS[fmt][2]


def judge(x, tp, g, a, b, c, strict):
    t, path = tp.split('/')
    lenient = path == 'ptr' and not strict
    if g.startswith('ok '):
        _, end, val = g.split(' ', 2)
        end = int(end)
    elif g.startswith('err '):
        end, val = int(g.split(' ')[1]), None
    else:
        return g
    if not 0 <= end <= len(x):
        return 'end outside the input'
    if t == 'b':
        return None
    if t in SG or t in UG:
        m, n, text, types = a if t in SG else b
        if lenient:
            mm = re.match(rb'[ \t\r\n]*(-?\d+)' if t in SG else rb'[ \t\r\n]*(\d+)', x)
            if (mm is not None and mm.end() != n) or (mm is None) != (m != 'done'):
                return None
        if m == 'done' and t in types:
            v = str(int(bytes(text)))
            if val is None:
                return 'refused (%s), must read %s' % (g, v)
            if val != v or end != n:
                return '%s, must be %s with end %d' % (g, v, n)
            return None
        if val is not None:
            return 'accepted (%s), must be refused' % g
        return None if end <= n else 'error reported at %d, beyond %d' % (end, n)
    m, n, text, _ = c
    text = bytes(text)
    if lenient:
        if x.lstrip(b' \t\r\n').lstrip(b'-')[:1].lower() in (b'i', b'n'):
            return None
        mm = LENIENT.match(x)
        if (mm is not None and mm.end() != n) or (mm is None and m == 'done' and text[:1] != b'"'):
            return None
        if mm is not None and m != 'done':
            return None
    if m != 'done':
        if val is not None:
            return 'accepted (%s), must be refused' % g
        return None if end <= n else 'error reported at %d, beyond %d' % (end, n)
    if text[:1] == b'"':
        w = text.strip(b'"').decode()
        if val is None:
            return 'refused (%s), must read %s' % (g, w)
        inf = w.endswith('inf')
        if t == 'f80':
            good = val == w if inf else val.endswith('nan')
        else:
            fb = {'f32': ('7f800000', 'ff800000'), 'f64': ('7ff0000000000000', 'fff0000000000000')}[t]
            good = val == fb[w[0] == '-'] if inf else val.endswith('nan')
        return None if good and end == n else '%s, must read %s with end %d' % (g, w, n)
    if t == 'f80' and path == 'ptr' and not x.lstrip(b' \t\r\n')[:1].lstrip(b'-').isdigit() and not x.lstrip(b' \t\r\n-')[:1].isdigit():
        return None
    q = exact(text)
    st, mm, e = nearest(q, t)
    neg = 1 if text[:1] == b'-' else 0
    if len(text) > NUM_LEN - 2 and path != 'ptr' and val is None and g.endswith('cxon/json/read:8'):
        return None
    if st != 'ok':
        if val is not None:
            return 'accepted (%s), must be refused: it %sflows' % (g, st)
        return None if end <= n else 'error reported at %d, beyond %d' % (end, n)
    w = bits(t, neg, mm, e)
    if val is None:
        return 'refused (%s), must read %s' % (g, w)
    if (f80(val) if t == 'f80' else val) != w or end != n:
        return '%s, must be %s with end %d' % (g, w, n)
    return None


def replay(rep, rows, bins, part, ops='IF', mask=255):
    docs = list(rows)
    for label, b, strict in bins:
        for op in ops:
            m = mask
            res = run_cases(b, ['%s\t%d\t%s' % (op, m, hexs(x)) for x in docs])
            for x, r in zip(docs, res):
                a, u, c = rows[x]
                for paths, g in split_groups(r):
                    if g == 'SKIPPED':
                        continue
                    memo = {}
                    for tp in paths.split(','):
                        key = tp if tp.endswith('/ptr') else tp.split('/')[0]
                        if key not in memo:
                            memo[key] = judge(x, tp, g, a, u, c, strict) if paths != 'all' else g
                        w = memo[key]
                        if w and len(rep.viol) < 200:
                            rep.violation('number:%s:%s' % (tp, x.hex()), '%r (%s, %s): %s' % (x.decode('latin-1'), label, tp, w),
                                          {'input_hex': x.hex(), 'build': label, 'target': tp, 'got': g, 'signed': a, 'unsigned': u, 'real': c})
            rep.traces += len(docs)
            rep.part(part, documents=len(docs) if (label, op) == (bins[0][0], ops[0]) else 0, replays=len(docs))
    if docs:
        x = docs[len(docs) // 2]
        rep.sample({'part': part, 'input': x.decode('latin-1'), 'signed': rows[x][0], 'real': rows[x][2]}, 20)


def shape(r):
    f = lambda z: (z[0], z[1], z[2], set(z[3]))
    return {bytes(x[1]): (f(x[2]), f(x[3]), f(x[4])) for x in r}


BOUNDS = [127, 128, 255, 256, 32767, 32768, 65535, 65536, 2**31 - 1, 2**31, 2**32 - 1, 2**32, 2**63 - 1, 2**63, 2**64 - 1, 2**64, 10**19, 10**20, 99999, 0]


def edge_reals(rng, n):
    """decimal texts around the places where rounding turns: halves between neighbouring values, limits of the formats"""
    out = []
    def dec(x):
        """exact decimal text of a dyadic rational"""
        n, d = x.numerator, x.denominator
        k = d.bit_length() - 1
        s = str(n * 5 ** k)
        if k:
            s = s.rjust(k + 1, '0')
            s = s[:-k] + '.' + s[-k:]
        return s
    for fmt, (p, emax, emin) in FMTS.items():
        for _ in range(n):
            e = rng.choice([0, 1, -1, 10, -10, p - 1, p, -p, 40, -40, rng.randrange(-60, 60)])
            m = rng.choice([1 << (p - 1), (1 << p) - 1, (1 << (p - 1)) + 1, rng.randrange(1 << (p - 1), 1 << p)])
            for q in (0, 1, 2):
                x = (Fraction(m) + Fraction(q, 2)) * Fraction(2) ** (e - p)
                t = dec(x)
                out.append(t)
                out += [t + ('0' * 3 if '.' in t else '.000') + '1', t + 'e0', t + 'e-2']
        top = (Fraction(2) - Fraction(1, 2 ** (p - 1))) * Fraction(2) ** emax
        if fmt != 'f80':
            for x in (top, top + Fraction(2) ** (emax - p), top + Fraction(2) ** (emax - p) - 1, top * 2):
                out.append(str(x.numerator))
        # limits written with an exponent
        for nd in (3, 6, 9, 17, 18, 20, 21, 25):
            for x in (top, top + Fraction(2) ** (emax - p), Fraction(2) ** (emin - p + 1), Fraction(2) ** (emin - p), Fraction(2) ** emin):
                k = len(str(x.numerator)) - len(str(x.denominator))
                m = (x * Fraction(10) ** (nd - k)).__floor__()
                for dd in (-1, 0, 1):
                    out.append('%de%d' % (m + dd, k - nd))
                    out.append('%s.%sE%+d' % (str(m + dd)[0], str(m + dd)[1:], k - nd + len(str(m + dd)) - 1))
    for e in list(range(-330, 312, 1)):
        out.append('1e%d' % e)
        out.append('%d.%de%d' % (rng.randrange(1, 10), rng.randrange(10 ** 16), e))
    out += ['0e999999', '0.0e-99999', '-0.0', '-0e5', '1e99999', '1e-99999', '1e999999999999', '9007199254740993', '9007199254740992.5', '1e23', '8.5e22', '5e-324', '2e-324', '3e-324', '4.9e-324', '1.4e-45', '7e-46', '1e-46']
    return out


def run(rep, tier):
    th = tier == 'thorough'
    fl = build_many([dict(source='jnum', std='20'), dict(source='jnum', std='11'), dict(source='jnum', std='20', defs=('VH_STRICTNUM',)), dict(source='jnum', std='11', defs=('VH_STRICTNUM',))])
    bins = list(zip(('c++20', 'c++11', 'c++20 strict', 'c++11 strict'), fl, (False, False, True, True)))
    o = dict(Opt=STD)
    inv = ['Out', 'Sane']
    runs = [
        ('every byte after every mode', T('', ' ', '-', '0', '-0', '1', '12', '-7', '1.', '0.5', '1e', '1e+', '1e5', '"', '"i', '"in', '"inf', '"inf"', '"-', '"-n', '"n', '"na', '"nan', 'n', 't', 'I', '25', '6553', '3276'), ALLBYTES, 1),
        ('syntax', T('', '-', ' ', '\n-'), T('0', '1', '9', '.', 'e', 'E', '+', '-', ' ', ',', '00', '12'), 5 if th else 4),
        ('boundaries', T('', '-'), [str(x + d).encode() for x in BOUNDS for d in ((-1, 0, 1) if th else (0,)) if x + d >= 0] + T('.', 'e1', 'e-1', ' ', '-'), 3 if th else 2),
        ('quoted', T('"', ' "-', '-"'), T('i', 'n', 'f', 'a', 'nan', 'inf', '"', '-', '1', ' '), 5 if th else 4),
    ]
    for name, pre, toks, k in runs:
        rows = shape(tlc('NumGen', dict(o, Prefixes=pre, Tokens=toks, MaxTok=k), inv, stats=rep.stats))
        replay(rep, rows, bins, name)
    rng = random.Random(SEED)
    docs = []
    for b in BOUNDS:
        for d in range(-3, 4):
            if b + d >= 0:
                for z in ('', '-'):
                    for tail in ('', ' ', ',', '.5', 'e0', '0', '00000000000000000000', ']'):
                        docs.append(z + str(b + d) + tail)
    docs += edge_reals(rng, 400 if th else 40)
    docs += ['-' + x for x in docs[-400:] if not x.startswith('-')]
    docs = sorted({x.encode() for x in docs if len(x) < 1500})
    corpus = ''.join(json.dumps(list(x)) + '\n' for x in docs)
    r = tlc('NumRun', o, inv, files={'corpus.ndjson': corpus}, stats=rep.stats)
    rows = {}
    for x in r:
        f = lambda z: (z[0], z[1], z[2], set(z[3]))
        rows[docs[x[1] - 1]] = (f(x[2]), f(x[3]), f(x[4]))
    replay(rep, rows, bins, 'numbers around limits and rounding boundaries')
    rep.assumptions += ['the correctly rounded value of a decimal text is computed outside TLC (exact rationals)',
                        'spellings beyond JSON that a format without strict numbers takes from const char* buffers are left open',
                        'texts longer than the number buffer may be refused where bytes have to be copied (num_len_max)']
