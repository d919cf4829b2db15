"""Seeded generators of raw material (documents); what is expected of them is decided by the specification."""
import os, random
from util import REPO


def _ws(r):
    return r.choice([b'', b'', b'', b' ', b'\n', b'\t ', b'\r\n  '])


def random_string(r):
    o = b'"'
    for _ in range(r.choice([0, 1, 2, 3, 5, 8, 15, 16, 17, 31, 33, 40])):
        k = r.random()
        if k < .6:
            o += bytes([r.choice(b'abcdefghijklmnopqrstuvwxyz0123456789 /{}[]:,\'')])
        elif k < .72:
            o += r.choice([b'\\n', b'\\"', b'\\\\', b'\\/', b'\\b', b'\\f', b'\\r', b'\\t'])
        elif k < .82:
            o += b'\\u%04x' % r.choice([0, 1, 0x1f, 0x20, 0x7f, 0x80, 0x7ff, 0x800, 0xd7ff, 0xe000, 0xfffd, 0xffff, r.randrange(0xd800)])
        elif k < .87:
            c = r.randrange(0x100000)
            o += b'\\u%04X\\u%04x' % (0xd800 + (c >> 10), 0xdc00 + (c & 0x3ff))
        else:
            c = r.choice([0x80, 0x7ff, 0x800, 0xfff, 0xd7ff, 0xe000, 0xffff, 0x10000, 0x10ffff, r.randrange(0x80, 0xd800), r.randrange(0xe000, 0x110000)])
            o += chr(c).encode('utf-8')
    return o + b'"'


def random_number(r):
    k = r.random()
    if k < .3:
        t = str(r.choice([0, 1, 7, 10, 255, 256, 65535, 2**31, 2**32, 2**53, 2**63 - 1, 2**63, 2**64 - 1, 2**64, r.randrange(10**r.randrange(1, 25))]))
    elif k < .7:
        t = '%d.%d' % (r.randrange(10**r.randrange(1, 12)), r.randrange(10**r.randrange(1, 20)))
    else:
        t = '%d%s' % (r.randrange(10), '' if r.random() < .5 else '.%d' % r.randrange(10**r.randrange(1, 18)))
        t += r.choice('eE') + r.choice(['', '+', '-']) + str(r.choice([0, 1, 2, 10, 22, 100, 300, 307, 308, 309, 320, 324, 400, r.randrange(330)]))
    return (r.choice(['', '', '-']) + t).encode()


def random_json(r, depth=0):
    k = r.random()
    if depth > 5 or k < .35 and depth:
        k = r.random()
        v = random_string(r) if k < .4 else random_number(r) if k < .75 else r.choice([b'null', b'true', b'false', b'[]', b'{}', b'""', b'0'])
    elif k < .68:
        v = b'[' + b','.join(random_json(r, depth + 1) for _ in range(r.choice([0, 1, 2, 3, 4]))) + b']'
    else:
        v = b'{' + b','.join(_ws(r) + random_string(r) + _ws(r) + b':' + random_json(r, depth + 1) for _ in range(r.choice([0, 1, 2, 3]))) + b'}'
    return _ws(r) + v + (_ws(r) if depth else b'')


def mutate(r, d):
    d = bytearray(d)
    for _ in range(r.choice([1, 1, 2, 3])):
        k = r.random()
        p = r.randrange(len(d) + 1)
        if k < .3 and d:
            del d[min(p, len(d) - 1)]
        elif k < .6:
            d[p:p] = r.choice([b',', b':', b'"', b'[', b']', b'{', b'}', b' ', b'0', b'-', b'.', b'e', b'\\', b'\\u', b'\x80', b'\xc3', b'\xff', b'\x01', b'/', b'n', b'1e', b'\x00'])
        elif k < .8 and d:
            d[min(p, len(d) - 1)] = r.randrange(256)
        elif k < .9:
            del d[p:]
        else:
            q = r.randrange(len(d) + 1)
            d[p:p] = d[min(p, q):max(p, q)][:40]
    return bytes(d)


def suite_files(limit):
    """every JSON document shipped with the repository (raw bytes)"""
    out = []
    for root in ('test', 'examples', 'doc', 'src'):
        for d, _, fs in os.walk(os.path.join(REPO, root)):
            for f in sorted(fs):
                if f.endswith('.json'):
                    p = os.path.join(d, f)
                    if os.path.getsize(p) <= limit:
                        out.append(open(p, 'rb').read())
    return sorted(set(out))
