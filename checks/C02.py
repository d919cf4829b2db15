"""CBOR writing."""
from ctyped import *
import C03

NODES = ('heads', 'structure', 'indefinite', 'strings', 'integers', 'wide', 'floats', 'counts', 'tags', 'simple', 'keys')
VEC = lambda t: seq('std::vector', t)
TYPES = [I8, U8, I16, U16, I32, U32, I64, U64, CHR, C16, C32, F32, F64, BOOL, NULL, E1, STR, S16, S32, CSTR, VEC(I8), VEC(U8), VEC(CHR), VEC(I32), VEC(U64), VEC(F32), VEC(BOOL), VEC(STR), seq('std::deque', U8), seq('std::list', I64),
         mp('std::map', STR, I32), mp('std::map', U64, VEC(STR)), mp('std::multimap', I32, STR, multi=True), st('std::set', STR), sarr(I64, 2), carr(U8, 3), chars(4), bits(3), bits(8), bits(13), tup(I32, STR, F64), opt(I64), opt(STR),
         uptr(I32), sptr(VEC(I32)), var(I32, STR, VEC(I32)), C1, C2, C3, C4, VEC(C1), sec(), cplx(F64), mp('std::map', STR, C3), tup(VEC(I32), opt(BOOL), cpp='std::pair')]
BIG = [('N', k) for k in ('text', 'bytes', 'array', 'map', 'in')] + [('O', k) for k in ('text', 'bytes', 'array', 'map')] + [('J', k) for k in ('text', 'array', 'map')] + \
      [('T', k) for k in ('string', 'chars', 'cdeque', 'uchars', 'ulist', 'schars', 'ints', 'flist', 'bools', 'u16', 'u32', 'map', 'set', 'cstr')]
STRS = {'text', 'bytes', 'string', 'chars', 'cdeque', 'uchars', 'ulist', 'schars', 'cstr'}


def lengths(rep, th):
    """every length around every width of a head: the head is judged by the machine, the rest by its size and by reading back"""
    ns = sorted({x + d for x in (24, 256, 65536) + ((1 << 20, 1 << 24) if th else ()) for d in (-2, -1, 0, 1, 2)} | {0, 1, 2, 12, 100, 1000, 40000})
    cases = [(o, k, n) for o, k in BIG for n in ns if n < 100000 or k in STRS]
    for std in ('20', '11'):
        b = build('cbig', std, (), '-O1')
        res = run_cases(b, ['%s\t%s\t%d' % c for c in cases])
        rep.traces += len(cases)
        got = []
        for c, r in zip(cases, res):
            f = r.split(' ')
            if len(f) != 3 or f[2] != 'same':
                rep.violation('length:%s:%s:%d' % c, '%s %s of %d elements (c++%s): %s' % (c + (std, r)), {'op': c[0], 'kind': c[1], 'n': c[2], 'build': std, 'got': r})
            else:
                got.append((c, bytes.fromhex(f[0]), int(f[1])))
        rows = tlc('CborHead', dict(Opt=TOPT), ['Out', 'Sane'], files={'corpus.ndjson': ''.join(json.dumps(list(h)) + '\n' for _, h, _ in got)}, stats=rep.stats)
        for _, d, m, n, left, stk, short in rows:
            (o, k, size), h, total = got[d - 1]
            want = size + (1 if k == 'cstr' else 0)
            why = None
            if k == 'in':
                ok = m == 'head' and stk == [['[', 1]] and n == 1
            elif k in STRS:
                ok = (m == 'str' and left == want or want == 0 and m == 'done') and total == n + want
            elif want == 0:
                ok = m == 'done' and total == n
            else:
                ok = m == 'head' and stk == [['{' if k == 'map' else '[', 2 * want if k == 'map' else want]] and (k in ('map', 'set') or total == n + want)
            if not ok:
                why = 'does not announce %d elements' % want
            elif not short:
                why = 'is not the shortest'
            if why:
                rep.violation('length:%s:%s:%d' % (o, k, size), '%s %s of %d elements (c++%s): the head %s %s' % (o, k, size, std, h.hex(), why), {'op': o, 'kind': k, 'n': size, 'build': std, 'head': h.hex(), 'size': total})
        if len(rows) != len(got):
            raise CheckError('heads: %d of %d judged' % (len(rows), len(got)))
        rep.part('lengths', values=len(cases))


def run(rep, tier):
    th = tier == 'thorough'
    bs = build_many([dict(source='cnode', std='20', defs=['VH_PATHS=1'], opt='-O1'), dict(source='cnode', std='11', defs=['VH_PATHS=4'], opt='-O1'), dict(source='cbig', std='20', defs=[], opt='-O1'), dict(source='cbig', std='11', defs=[], opt='-O1')])
    bins = [('c++20', bs[0]), ('c++11', bs[1])]

    def node(name):
        pre, toks, q, t = CALPH[name]
        w = {}
        creplay(rep, cgen(rep, STDC, pre, toks, t if th else min(q, 3)), bins, name, mask=5, written=w)
        return w
    written = {}
    for w in parallel([lambda n=n: node(n) for n in NODES], 4):
        written.update(w)
    check_cwritten(rep, written, 'nodes written back')
    lengths(rep, th)
    hx = [bytes.fromhex(x) for x in C03.floats(False)[::5] + C03.EDGE + C03.NEAR]
    crun_parts(rep, TYPES, [
        ('values', H('', '81', 'a1', '82', '9f', 'bf'), H('00', '18ff', '20', '1a80000000', '3903e8', '40', '41ff', '6161', '627a00', '80', '820102', 'a0', 'a1616105', 'f5', 'f6', 'f7', 'f93e00', 'fbc000000000000000', 'ff', '4105', '420580', '4303057f'), 3 if th else 2),
        ('numbers', hx + [b'\x82\x01' + x for x in hx[::11]] + [b'\x81' + x for x in hx[::3]]),
        ('alternatives', H('8200', '8201', '8202', 'a16161', 'a2616101', '83', '8281', '8280', 'a101', 'bf616105'), H('05', '3903e8', '6161', '80', '8101', '0a', '626162', '6161', 'f93c00', 'a0', 'ff', 'f5', 'f7', '6162', '820203'), 3 if th else 2)], label='types ')
