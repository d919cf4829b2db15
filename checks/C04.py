"""CBOR maps and classes."""
from ctyped import *

TYPES = [C1, C2, C3, C4, C6, C8, seq('std::vector', C1), mp('std::map', STR, C3), tup(C1, C4, cpp='std::pair'), opt(C4), seq('std::list', C2), uptr(C3)]
S = lambda t: b(t.encode())


def b(x):
    n = len(x)
    return (bytes([0x60 + n]) if n < 24 else bytes([0x78, n])) + x


def nul(x):
    return b(x.encode() + b'\0')


def items(rep, th):
    """well-formed, cut short and malformed items by the item machine"""
    out = {}
    for name in ('heads', 'structure', 'indefinite', 'strings', 'counts', 'simple'):
        pre, toks, q, t = CALPH[name]
        out.update(cgen(rep, STDC, pre, toks, min(q, 3) if not th else t))
    return [x for x in out if len(x) < 40]


def spell(name):
    """the spellings of a key"""
    x = name.encode()
    return [b(x), b(x + b'\0'), bytes([0x78, len(x)]) + x, bytes([0x79, 0, len(x)]) + x, b'\x7f' + b(x) + b'\xff', b'\x7f' + b(x[:1]) + b(x[1:]) + b'\xff', b(x + b'\0\0'), b(b'\0' + x), b(x + b' '), b(x[:-1]), b(x.upper()),
            bytes([0x40 + len(x)]) + x if len(x) < 24 else b'\x58' + bytes([len(x)]) + x, b(x[:1] + b'\0' + x[1:])]


# what is known not to be skipped exactly (known_findings.json): a tag, a string in chunks
LIMITS = ['c105', 'd7f6', '81c100', 'd81880', 'a1c10102', '5fff', '5f4101ff', '7f6161ff', '5f41ffff', '7f61ffff', '5f4101', 'c1', '817f6161ff', '5fc1ff', '5f01ff', '5f6161ff', '7f4161ff', '5f5f4101ffff']


def run(rep, tier):
    th = tier == 'thorough'
    a, ab, sk, bb = S('a'), S('ab'), S('skip'), S('b')
    its = items(rep, th)
    rnd = random.Random(SEED)
    few = its if th else [x for k, x in enumerate(its) if len(x) < 3 or k % 9 == 0]
    skips = [b'\xa2' + sk + x + a + b'\x05' for x in few] + [b'\xbf' + sk + x + a + b'\x05\xff' for x in few[::1 if th else 3]] + [b'\xa3\x61i' + x + b'\x61j' + x + b'\x61x\x18\x64' for x in few[::3]]
    def nest(h, f, n, tail=b''):
        k = f * n if f[-1:] == b'\xff' else (b'\x00' + b'\x00' * n if h == b'\xa1' else f)
        return b'\xa2' + sk + h * n + k + tail + a + b'\x05'
    NEST = ((b'\x81', b'\x00'), (b'\x9f', b'\xff'), (b'\xa1\x00', b'\x00'), (b'\xbf', b'\xff'), (b'\xa1', b'\x00\x00'), (b'\x9f\xbf\x00', b'\x00\xff\xff'))
    deep = [nest(h, f, n, t) for h, f in NEST for n in ((1, 2, 63, 64, 65, 150) + ((2000,) if th else ())) for t in (b'', b'\x00')]
    names = [b'\xa1' + k + v for nm, v in (('a', b'\x05'), ('ab', b'\x61z'), ('b', b'\x81\x01'), ('skip', b'\xf6'), ('inner', b'\xa0'), ('k"1', b'\x07'), ('é', b'\x08'), ('k' * 64, b'\x09'), ('k' * 63, b'\x0a'), ('k' * 65, b'\x0b'), ('x', b'\x01'), ('zz', b'\x01'), ('', b'\x00')) for k in spell(nm)]
    names += [b'\xa2' + names[i][1:] + names[j][1:] for i in range(0, len(names), 3) for j in range(1, len(names), 7)]
    crun_parts(rep, TYPES, [
        ('members', H('a1', 'a2', 'bf', 'c1a2', '81bf', 'a16178a1'), [a, ab, bb, sk, b'\x05', b'\x61z', b'\x81\x01', b'\xff', b'\xf6', S('x'), b'\xa1', b'\x20'], 5 if th else 3),
        ('several', [b'\xa3' + a + b'\x05', b'\xa4' + bb + b'\x80' + a + b'\x06', b'\xbf' + ab + b'\x60', b'\xa3' + sk + b'\x00'], [a + b'\x01', ab + b'\x61z', bb + b'\x9f\x01\xff', sk + b'\x81\xa0', b'\xff', b'\xf6', S('s') + b'\x61q', S('m') + b'\xa1' + a + b'\x02', S('z') + b'\x18\x20'], 4 if th else 3),
        ('nested', H('a165696e6e6572', 'bf', 'a2626c69', '9fa1', 'a26178', '82'), [S('inner'), S('li'), S('d'), S('flag'), b'\xa0', b'\xa1' + a + b'\x01', b'\xbf\xff', b'\x80', b'\x81\xa0', b'\xf5', b'\xf9\x3c\x00', b'\xff', b'\xa1\x61y\x03'], 4 if th else 3),
        ('names', names)], label='classes ')
    crun_parts(rep, [C1, C4], [('ignored', list(dict.fromkeys(skips))), ('deep', deep)], label='ignored ')
    # whatever depth: the meaning of the nests of 100 is that of the nests of 100000 (nothing in the machine depends on the depth)
    bs = binaries([C1, C4], CBOR_BUILDS, cbor=True)
    ms = crun_typed(rep, [C1, C4], [nest(h, f, 100) for h, f in NEST])
    far = {}
    for h, f in NEST:
        x, y = nest(h, f, 100), nest(h, f, 100000)
        m = ms[x]
        if m.m == 'done':
            far[y] = Meaning('done', m.n + len(y) - len(x), m.r)
    if far:
        creplay_typed(rep, [C1, C4], far, bs, 'very deep', write=False)
    # exactly as the statement has it, where the library is known to fall short
    docs = {}
    for h in LIMITS:
        for d in (b'\xa2' + sk + bytes.fromhex(h) + a + b'\x05', b'\xbf' + sk + bytes.fromhex(h) + a + b'\x05\xff'):
            docs[d] = h
    bs = binaries([C1], CBOR_BUILDS, cbor=True)
    creplay_typed(rep, [C1], crun_typed(rep, [C1], docs, dict(TOPT, sk=True)), bs, 'ignored, strictly', sigp='strict:', write=False)
