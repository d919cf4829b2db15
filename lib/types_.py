"""Catalogue of typed targets: the C++ type and what it is called in spec/Typed.tla"""
from util import *
import re


class Ty:
    def __init__(self, cpp, tla, std=11, json=True, cbor=True, boost=False, key=False):
        self.cpp, self.tla, self.std, self.json, self.cbor, self.boost = cpp, tla, std, json, cbor, boost

    def __repr__(self):
        return self.cpp


B = lambda s: list(s.encode() if isinstance(s, str) else s)
I32, I8, I16, I64, U8, U16, U32, U64 = [Ty(c, ('int', n)) for c, n in (
    ('int', 'i32'), ('signed char', 'i8'), ('short', 'i16'), ('long long', 'i64'), ('unsigned char', 'u8'), ('unsigned short', 'u16'), ('unsigned', 'u32'), ('unsigned long long', 'u64'))]
F64, F32 = Ty('double', ('real', 'd')), Ty('float', ('real', 'f'))
BOOL, NULL, STR = Ty('bool', ('bool',)), Ty('std::nullptr_t', ('null',)), Ty('std::string', ('str', 8))
S16, S32 = Ty('std::u16string', ('str', 16)), Ty('std::u32string', ('str', 32))
CHR, C16, C32 = Ty('char', ('chr', 255)), Ty('char16_t', ('chr', 65535)), Ty('char32_t', ('chr', 0x10FFFF))
CSTR = Ty('const char*', ('cstr',))
E1 = Ty('E1', ('enum', [B('one'), B('two'), B('III')], [[], [1], [1, 44]]))     # aliases in CBOR: 0, 1, 300


def d(*ts, std=11, boost=False):
    """common attributes of the parts"""
    return dict(std=max([std] + [t.std for t in ts]), boost=boost or any(t.boost for t in ts), json=all(t.json for t in ts), cbor=all(t.cbor for t in ts))


def seq(c, t, **k):
    return Ty('%s<%s>' % (c, t.cpp), ('seq', t.tla), **d(t, **k))


def stk(c, t, **k):
    return Ty('%s<%s>' % (c, t.cpp), ('stk', t.tla), **d(t, **k))


def bag(c, t, **k):
    return Ty('%s<%s>' % (c, t.cpp), ('bag', t.tla), **d(t, **k))


def st(c, t, **k):
    return Ty('%s<%s>' % (c, t.cpp), ('set', t.tla), **d(t, **k))


def cap(c, t, n, **k):
    return Ty('%s<%s, %d>' % (c, t.cpp, n), ('cap', t.tla, n), **d(t, **k))


def mp(c, k, v, multi=False, **kw):
    return Ty('%s<%s, %s>' % (c, k.cpp, v.cpp), ('mmap' if multi else 'map', k.tla, v.tla), **d(k, v, **kw))


ZERO = {'int': ('n', B('0')), 'str': ('s', []), 'bool': ('b', 'false'), 'seq': ('[', []), 'stk': ('[', []), 'set': ('S', []), 'bag': ('B', []), 'map': ('M', []), 'mmap': ('W', []), 'cstr': ('~',)}


def zero(t):
    if t[0] == 'arr':
        return ('[', [t[3]] * t[2])
    if t[0] == 'opt':
        return ('~',)
    if t[0] == 'real':
        return ('r', t[1], B('0'))
    if t[0] == 'tup':
        return ('[', [zero(x) for x in t[1]])
    return ZERO[t[0]]


def arr(cpp, t, n, **k):
    return Ty(cpp, ('arr', t.tla, n, zero(t.tla)), **d(t, **k))


def sarr(t, n):
    return arr('std::array<%s, %d>' % (t.cpp, n), t, n)


def carr(t, n):
    return arr('%s[%d]' % (t.cpp, n), t, n)


def chars(n):
    return Ty('char[%d]' % n, ('carr', n, 0))


def bits(n):
    return Ty('std::bitset<%d>' % n, ('bits', n))


def tup(*ts, cpp='std::tuple', **k):
    return Ty('%s<%s>' % (cpp, ', '.join(t.cpp for t in ts)), ('tup', [t.tla for t in ts]), **d(*ts, **k))


def cplx(t):
    return Ty('std::complex<%s>' % t.cpp, ('tup', [t.tla, t.tla]))


def span(t, n):
    return arr('std::span<%s%s>' % (t.cpp, ', %d' % n if n is not None else ''), t, 4 if n is None else n, std=20)


def opt(t):
    return Ty('std::optional<%s>' % t.cpp, ('opt', t.tla, 'u'), **d(t, std=17))


def ptr(t, c='%s*'):
    return Ty(c % t.cpp, ('opt', t.tla, 'p'), **d(t))


def uptr(t):
    return ptr(t, 'std::unique_ptr<%s>')


def sptr(t):
    return ptr(t, 'std::shared_ptr<%s>')


def var(*ts, cpp='std::variant', std=17, amb=True, **k):
    """amb: the alternatives cannot be told apart by their first character"""
    return Ty('%s<%s>' % (cpp, ', '.join(t.cpp for t in ts)), ('var' if amb else 'uvar', [t.tla for t in ts]), **d(*ts, std=std, **k))


def sec(c='std::chrono::seconds', n='i64'):
    return Ty(c, ('int', n))


SK = (('skip',), ('b', 'skip'))
C1 = Ty('C1', ('cls', [(B('a'), I32.tla, ('n', B('7'))), (B('ab'), STR.tla, ('s', [])), (B('skip'),) + SK, (B('b'), ('seq', I32.tla), ('[', []))]))
C1_0 = ('(', [('n', B('7')), ('s', []), ('b', 'skip'), ('[', [])])
C2 = Ty('C2', ('cls', [(B('inner'), C1.tla, C1_0), (B('li'), ('seq', C1.tla), ('[', [])), (B('d'), F64.tla, ('r', 'd', B('0'))), (B('flag'), BOOL.tla, ('b', 'false'))]))
C3 = Ty('C3', ('cls', [(B('a'), I32.tla, ('n', B('0'))), (B('s'), STR.tla, ('s', [])), (B('m'), ('map', STR.tla, I32.tla), ('M', [])), (B('z'), I32.tla, ('n', B('5')))]))
C4 = Ty('C4', ('cls', [(B('i'),) + SK, (B('x'), I32.tla, ('n', B('1'))), (B('j'),) + SK, (B('y'), I32.tla, ('n', B('2')))]))
C5 = Ty('C5', ('cls', []), cbor=False)
C6 = Ty('C6', ('cls', [(B('k"1'), I32.tla, ('n', B('0'))), (list('é'.encode()), I32.tla, ('n', B('0')))]))
C9 = Ty('C9', ('cls', [(B('a'), I32.tla, ('n', B('0'))), (B('s.x'), STR.tla, ('s', [])), (B('skip'),) + SK, (B('l'), ('seq', I32.tla), ('[', [])), (B('m'), ('map', STR.tla, C1.tla), ('M', []))]), cbor=False)
C8 = Ty('C8', ('cls', [(B('k' * 64), I32.tla, ('n', B('0'))), (B('k' * 63), I32.tla, ('n', B('0')))]))


def has_skip(t):
    return isinstance(t, (list, tuple)) and (t[:1] in (['skip'], ('skip',)) or any(has_skip(x) for x in t))


def has_stk(t):
    return isinstance(t, (list, tuple)) and (t[:1] in (['stk'], ('stk',)) or any(has_stk(x) for x in t))


def as_written(t):
    """stacks are written from their top"""
    if isinstance(t, (list, tuple)):
        return type(t)('top' if x == 'stk' else as_written(x) for x in t)
    return t


def head(t):
    return t.tla[0]


class Refused(Exception):
    pass


def canon(v):
    """a value of the specification as the harness prints it; raises Refused when a real has no representation"""
    k = v[0]
    if k == 'n':
        return 'n' + bytes(v[1]).decode()
    if k == 'r':
        t = bytes(v[2]).decode()
        if t.strip('"').lower() in ('nan', '-nan', 'inf', '-inf', 'infinity', '-infinity'):
            f = float(t.strip('"'))
            if f != f:
                return 'r' + t.strip('"').lower()
        else:
            f = rounded(v[1], t)
        return 'r' + (dbits(f) if v[1] == 'd' else fbits(f))
    if k == 'u':
        return 'n%d' % int.from_bytes(bytes(v[1]), 'big')
    if k == 'i':
        return 'n%d' % (-1 - int.from_bytes(bytes(v[1]), 'big'))
    if k == 'c':
        return 's' + code8(int.from_bytes(bytes(v[1]), 'big')).hex()
    if k == 'w':
        cs = [int.from_bytes(bytes(x), 'big') for x in v[1]]
        o, i = b'', 0
        while i < len(cs):
            c = cs[i]
            i += 1
            if v[2] == 16 and 0xD800 <= c < 0xDC00 and i < len(cs):
                if not 0xDC00 <= cs[i] < 0xE000:
                    raise Unsettled()       # not UTF-16
                c = 0x10000 + ((c - 0xD800) << 10 | (cs[i] - 0xDC00))
                i += 1
            o += code8(c)
        return 's' + o.hex()
    if k in ('fl', 'fu', 'fi'):
        return 'r' + real_of(k, v[1], bytes(v[2]))
    if k == 'b':
        return v[1]
    if k == 's':
        return 's' + bytes(v[1]).hex()
    if k == '~':
        return '~'
    if k == '?':
        return '?' + canon(v[1])
    if k == '[':
        return '[' + ' '.join(canon(x) for x in v[1]) + ']'
    if k in 'SB':
        return '[' + ' '.join(sorted(canon(x) for x in v[1])) + ']'
    if k in 'MW':
        return '{' + ' '.join(sorted(canon(a) + ':' + canon(b) for a, b in v[1])) + '}'
    if k == 'v':
        return 'v%d:%s' % (v[1], canon(v[2]))
    if k == 'e':
        return 'e' + bytes(v[1]).decode()
    if k == '(':
        return '(' + ' '.join(canon(x) for x in v[1]) + ')'
    raise CheckError('value %r' % (v,))


class Unsettled(Exception):
    pass


def code8(c):
    if c < 0x80:
        return bytes([c])
    if c < 0x800:
        return bytes([0xC0 | c >> 6, 0x80 | c & 63])
    if c < 0x10000:
        return bytes([0xE0 | c >> 12, 0x80 | c >> 6 & 63, 0x80 | c & 63])
    return bytes([0xF0 | c >> 18, 0x80 | c >> 12 & 63, 0x80 | c >> 6 & 63, 0x80 | c & 63])


def real_of(k, fmt, b):
    """bits of the real that an IEEE pattern or an integer denotes, when the format has it exactly"""
    if k == 'fl':
        f = struct.unpack({2: '>e', 4: '>f', 8: '>d'}[len(b)], b)[0]
        if f != f:
            return 'nan'
        if fmt == 'f' and len(b) == 8 and f not in (float('inf'), float('-inf')):
            try:
                ok = struct.unpack('>f', struct.pack('>f', f))[0] == f
            except OverflowError:
                ok = False
            if not ok:
                raise Unsettled()
    else:
        n = int.from_bytes(b, 'big')
        n = n if k == 'fu' else -1 - n
        if abs(n).bit_length() and abs(n) >> max(0, abs(n).bit_length() - (24 if fmt == 'f' else 53)) << max(0, abs(n).bit_length() - (24 if fmt == 'f' else 53)) != abs(n):
            raise Unsettled()
        f = float(n)
    return dbits(f) if fmt == 'd' else fbits(f)


def rounded(fmt, t):
    f = float(t)
    nz = any(c in '123456789' for c in t.lower().split('e')[0])
    if fmt == 'f':
        from fractions import Fraction
        f = f32(t)
        if f is None:
            raise Refused()
    if f in (float('inf'), float('-inf')) or (f == 0 and nz):
        raise Refused()
    return f


def f32(t):
    """nearest single to a decimal text, None out of range (the double is only used where it cannot round twice)"""
    from fractions import Fraction
    x = Fraction(t)
    if abs(x) < Fraction(1, 2 ** 149) / 2 and x != 0:
        return None
    s, a = (-1 if t.startswith('-') else 1), abs(x)
    if a == 0:
        return s * 0.0
    e = 0
    import math
    m = float(a) if a < 10 ** 300 else 1e300
    e = max(math.floor(math.log2(m)) - 1, -126) if m > 0 else -126
    while a >= Fraction(2) ** (e + 1):
        e += 1
    q = a / Fraction(2) ** (e - 23)
    n = q.numerator // q.denominator
    r = q - n
    if r > Fraction(1, 2) or (r == Fraction(1, 2) and n & 1):
        n += 1
    v = n * Fraction(2) ** (e - 23)
    if v == 0 or v >= Fraction(2) ** 128:
        return None
    return s * float(v)


def write_list(types, name):
    """the list of types as a file the harness includes; its name carries its content"""
    txt = ''.join('TYPE(%d, %s)\n' % (i, t.cpp) for i, t in types)
    h = hashlib.sha256(txt.encode()).hexdigest()[:16]
    os.makedirs(BUILD, exist_ok=True)
    p = os.path.join(BUILD, 'list-%s-%s.inc' % (name, h))
    if not os.path.exists(p):
        with open(p + '.tmp%d' % os.getpid(), 'w') as fh:
            fh.write(txt)
        os.rename(p + '.tmp%d' % os.getpid(), p)
    return p
