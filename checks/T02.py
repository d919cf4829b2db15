"""Nullable, alternative and enumerated targets."""
from typedlib import *
from ctyped import crun_parts, cagain, H

V2 = seq('std::vector', I32)
MONO = Ty('std::monostate', ('null', 'u'), std=17)
TYPES = [opt(I32), opt(STR), opt(seq('std::vector', I32)), opt(tup(I32, I32, cpp='std::pair')), uptr(I32), sptr(STR), uptr(seq('std::vector', STR)), ptr(I32), ptr(STR), CSTR, Ty('char*', ('cstr',)), E1,
         opt(E1), seq('std::vector', opt(I32)), seq('std::vector', sptr(I32)), seq('std::vector', CSTR), mp('std::map', STR, opt(I32)),
         var(I32, STR, amb=False), var(MONO, BOOL, I32, STR, seq('std::vector', I32), mp('std::map', STR, I32), amb=False), var(I32, F64), var(STR, E1, I32), var(seq('std::vector', I32), st('std::set', I32), STR),
         opt(var(I32, STR, amb=False)), var(BOOL, I32, amb=False), seq('std::vector', var(I32, STR, amb=False)), seq('std::vector', E1), sptr(C1), opt(C1), uptr(C1), opt(BOOL),
         var(E1, I32, amb=False), var(C1, seq('std::vector', BOOL), amb=False), var(C1, C3)]


def run(rep, tier):
    th = tier == 'thorough'
    bs = run_typed_parts(rep, TYPES, (
        ('states', T('', '[', '{"a":', '{"'), T('null', '1', '"one"', 'true', '[', ']', ',', '{', '}', '"0":', '"1":', '"a":', '-7'), 5 if th else 4),
        ('words', T('n', 'n"', '"o', '[n', ' ', '"', '["', '{"1":'), T('u', 'ul', 'l', 'ull', 'll', 'ne', 'III', 'two', 'three', 'unnamed', '"', ' ', 'x', '\\u006e', ']', ',', '2', '}', 'I'), 4 if th else 3)))
    docs = T('null', '1', '"one"', '"x"', '"III"', '[]', '[1]', '[1,2]', '{}', '{"a":1}', 'true', '{"0":1}', '{"1":2.5}', '{"0":"s"}', '{"1":"two"}', '{"2":3}', '{"0":[1]}', '{"1":[2]}', '["x"]', '[null,2]', '{"a":null}', '{"ab":"z"}', '{"1":{"s":"q"}}')

    def want(i, a, b):
        # whatever the target held, null empties it, scalars and alternatives replace it; containers append to what is there
        t = types_[i].tla
        if i not in b.r:
            return None
        if t[0] == 'opt' and t[1][0] in ('seq', 'cls', 'map') and types_[i].cpp.startswith('std::optional'):
            return expected(b, i)
        if t[0] in ('seq', 'map') or (t[0] == 'opt' and not types_[i].cpp.startswith('std::optional') and t[1][0] in ('seq', 'cls', 'map', 'str')):
            return expected(b, i) if (i not in a.r or a.r[i] in (['~'], ['[', []], ['M', []])) and t[0] == 'opt' and b.r[i] == ['~'] else NotImplemented
        return expected(b, i)
    types_ = TYPES
    before_after(rep, TYPES, docs, docs, bs, 'whatever the state before', want)
    ct = [t for t in TYPES if t.cbor] + [ptr(V2), uptr(V2), var(MONO, I32), opt(F32), seq('std::vector', ptr(I32)), opt(U8)]
    bs = crun_parts(rep, ct, (
        ('cbor states', H('', '81', '82', '9f', 'a16161', '8200', '8201', '8202', '8203', '8206', '821a00000001', 'c1', 'd8ff'),
         H('f6', 'f7', '05', '20', '190100', '1901', '18ff', '6161', '80', '8101', '82', 'f5', 'a0', 'a1616105', 'ff', '00', '01', '82016161', 'c105', 'f93c00'), 3 if th else 2),
        ('cbor alternatives', H('82', '83', '81', '9f', '5f', '42', '8218', '8219', '8220', '82f5', '8241', '82c1', '98028201', '8200', '8201', '8202', '8203'), H('00', '01', '02', '03', '06', '07', '18', '0a', '1901f4', '6161', '80', 'f6', 'f7', 'a0', 'ff', '820005'), 4 if th else 2)), label='cbor ')
    cd = H('f6', 'f7', '05', '1a7fffffff', '0a', '1901f4', '6161', '606060', '80', '8101', '820102', 'a0', 'a1616105', 'f5', '820005', '8200', '82016161', '8201fb4000000000000000', '820261', '82028101', '8201f6', '816178', '82f602', 'a16161f6', '1903e8', '82fff6', '8105')

    def settled(i, a, b):
        t = ct[i].tla
        if i not in b.r or b.r[i][0] == '*':
            return True
        empty = i not in a.r and a.m == 'done' or a.r.get(i) in (['~'], ['[', []], ['M', []])
        if t[0] == 'opt' and b.r[i] == ['~']:
            return True
        grows = ('seq', 'cls', 'map', 'str')
        return not (t[0] in ('seq', 'map') or t[0] == 'opt' and t[1][0] in grows) or (ct[i].cpp.startswith('std::optional') and t[0] == 'opt')
    cagain(rep, ct, cd, bs, 'cbor, whatever the state before', settled)
