"""CBOR numbers, characters and simple values into built-in types."""
from ctyped import *

INTS = [I8, U8, I16, U16, I32, U32, I64, U64]
BASE = INTS + [CHR, C16, C32, F32, F64, BOOL, NULL, E1, sec(), sec('std::chrono::duration<short>', 'i16')]
WRAP = [seq('std::vector', I8), seq('std::vector', U8), seq('std::vector', I32), seq('std::list', U64), sarr(I16, 2), seq('std::vector', F32), seq('std::deque', F64), seq('std::vector', BOOL), seq('std::vector', E1),
        opt(U16), opt(F64), opt(BOOL), opt(CHR), uptr(I64), ptr(I32), sptr(U8), uptr(F32), seq('std::vector', C16), seq('std::vector', CHR), tup(I8, U64, F32), mp('std::map', I8, U16), mp('std::map', C32, F64)]
EDGE = ['%s%s%s' % (w, a, b) for w, n in (('18', 1), ('38', 1), ('19', 2), ('39', 2), ('1a', 4), ('3a', 4), ('1b', 8), ('3b', 8))
        for k in range(n) for a, b in [('00' * k + x, y * (n - 1 - k)) for x in ('7f', '80', 'ff', '01', '00') for y in ('00', 'ff')]]
NEAR = ['1a%08x' % (x + d) for x in (1 << 24, 1 << 25, (1 << 31) - 1, 0x10FFFF, 0xD800) for d in (-1, 0, 1, 2)] + ['1b%016x' % ((x + d) & (2 ** 64 - 1)) for x in (1 << 53, 1 << 54, 1 << 63, 1 << 32, 0) for d in (-3, -2, -1, 0, 1, 2, 3)] + \
       ['3b%016x' % ((x + d) & (2 ** 64 - 1)) for x in (1 << 53, 1 << 24, 1 << 63, 1 << 31, 0) for d in (-3, -2, -1, 0, 1, 2, 3)]


def floats(th):
    out = ['f9%04x' % h for h in (range(65536) if th else [a << 8 | b for a in range(256) for b in (0, 1, 0x7f, 0x80, 0xff)])]
    for s in (0, 1):
        for e in (0, 1, 2, 102, 103, 126, 127, 128, 143, 254, 255):
            for m in (0, 1, 0x400000, 0x7fffff, 0x2000, 0x1fff):
                out.append('fa%08x' % (s << 31 | e << 23 | m))
        for e in (0, 1, 873, 874, 896, 897, 1022, 1023, 1024, 1150, 1151, 2046, 2047):
            for m in (0, 1, 1 << 51, (1 << 52) - 1, 1 << 29, (1 << 29) - 1, 0xfffffe0000000, 0xfffffe0000001):
                out.append('fb%016x' % (s << 63 | e << 52 | m))
    return out


def run(rep, tier):
    th = tier == 'thorough'
    fl = floats(th)
    hx = [bytes.fromhex(x) for x in fl + EDGE + NEAR]
    ints = [bytes.fromhex(x) for x in EDGE + NEAR]
    crun_parts(rep, BASE, [
        ('heads', H('', 'c1', 'd864', 'c1c2', 'd8'), H(*HEADS), 2 if th else 1),
        ('arguments', H('18', '19', '1a', '1b', '38', '39', '3a', '3b', 'f8', 'c118', 'd81819'), H('00', '17', '18', '7f', '80', 'ff', '01'), 4 if th else 3),
        ('patterns', hx),
        ('cut short', [x[:k] for x in ints[::3] + hx[1::97] for k in range(1, len(x))] + [x + b'\x00' for x in ints[::5]])], label='built-in types ')
    crun_parts(rep, WRAP, [
        ('elements', H('81', '82', '9f', '8118', '40', '41', '42', '61', '5f', 'a1', 'c181', '83'), H('00', '18', '20', 'ff', '80', '7f', 'f6', 'f7', 'f5', 'f93c00', '41', '1903e8', '3a7fffffff', 'fa3f800000'), 4 if th else 3),
        ('whole', H('', 'c1'), H('f6', 'f7', 'f4', '00', '1819', '1b0000000100000000', '20', '387f', '3880', 'f97c00', 'fb3ff0000000000001', '80', '81', '8100', '40', '61', 'a0', 'a100', 'a120', 'a11880', 'c0', '83', '17'), 3),
        ('wrapped', [p + x for x in ints[::1 if th else 7] + hx[::50] for p in (b'', b'\x81', b'\x9f')])], label='elements ')
