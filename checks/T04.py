"""Standard containers and their keys."""
from typedlib import *
from ctyped import crun_parts, H

V2 = seq('std::vector', I32)
SEQS = [seq('std::vector', I32), seq('std::deque', I16), seq('std::list', STR), seq('std::forward_list', I32), seq('std::vector', BOOL), seq('std::valarray', I32), seq('std::queue', U8),
        stk('std::stack', I32), st('std::set', I32), bag('std::multiset', STR), st('std::unordered_set', STR), bag('std::unordered_multiset', I32), bag('std::priority_queue', I32),
        seq('std::vector', V2), seq('std::vector', tup(I32, STR, cpp='std::pair')), seq('std::list', tup(I32, BOOL)), seq('std::vector', F64), seq('std::vector', uptr(I32)),
        sec(), Ty('std::chrono::time_point<std::chrono::system_clock, std::chrono::milliseconds>', ('int', 'i64')), sec('std::chrono::duration<int>', 'i32'), st('std::set', V2), STR,
        stk('std::stack', STR)]
MAPS = [mp('std::map', STR, I32), mp('std::map', I32, STR), mp('std::map', BOOL, I32), mp('std::map', F64, I32), mp('std::map', E1, I32), mp('std::multimap', STR, I32, True),
        mp('std::unordered_map', STR, V2), mp('std::unordered_multimap', I32, I32, True), mp('std::map', V2, I32), mp('std::map', tup(I32, STR, cpp='std::pair'), I32),
        mp('std::map', STR, BOOL), mp('std::map', CHR, I32), mp('std::multimap', U8, STR, True), mp('std::map', tup(STR, BOOL), STR), seq('std::vector', mp('std::map', STR, I32)),
        mp('std::map', STR, mp('std::map', I32, I32)), mp('std::map', mp('std::map', STR, I32), I32), mp('std::map', opt(I32), I32)]


def nested(t, x):
    """members of equal name whose values are containers: the second reading appends (not settled)"""
    # (strings are containers of characters)
    return t.tla[0] == 'map' and t.tla[2][0] in ('seq', 'map', 'str')


def dup(doc):
    ks = re.findall(rb'"(?:[^"\\]|\\.)*"[ ]*:', doc)
    return len(ks) != len(set(ks))


STACKS = [i for i, t in enumerate(SEQS) if t.tla[0] == 'stk']


def stacks(rep, written):
    """does what is written for a stack denote that stack?"""
    for i in {i for i, _ in written if i in STACKS}:
        ws = [(w, v) for (j, w), v in sorted(written.items()) if j == i][:200]
        ms = run_typed(rep, [SEQS[i]], [w for w, _ in ws])
        for w, (x, val, label) in ws:
            g = expected(ms[w], 0)
            if g != normal(val):
                rep.violation('from its top:%s:%s' % (SEQS[i].cpp, w.hex()), 'written for a %s: %s denotes %s, not %s' % (SEQS[i].cpp, show(w), g, normal(val)), {'type': SEQS[i].cpp, 'read_from_hex': x.hex(), 'written_hex': w.hex()})


def run(rep, tier):
    th = tier == 'thorough'
    bs = binaries(SEQS)
    written = {}
    for name, pre, toks, n in (
            ('lists', T('', '[', '[['), T('[', ']', ',', '1', '-2', '300', '"a"', 'true', ' ', '"'), 6 if th else 5),
            ('lists of mixed elements', T('[', '[[1,', '[1,2,3,4,'), T('[1,"x"]', '[7,false]', '5', '"b"', '""', 'null', 'false', '1.5', '-0', ',', ']', '\n', '\v', '1e3', '70000', '99999999999'), 4 if th else 3)):
        ms = gen_typed(rep, SEQS, pre, toks, n)
        written.update(replay_typed(rep, SEQS, ms, bs, name))
    check_written(rep, SEQS, written, 'lists written')
    stacks(rep, written)
    bs = binaries(MAPS)
    written = {}
    skip = lambda t, x: (nested(t, x) and dup(x)) or ('<char,' in t.cpp and max(x) > 127)     # a char is written as one byte (J05)
    for name, pre, toks, n in (
            ('maps', T('{', '[{', '{"a":'), T('"a":', '"b":', '"1":', '"2":', '1', '"x"', 'true', ',', '}', '{', '[', ']'), 6 if th else 5),
            ('keys', T('{', '{"1":2,'), T(*['"%s":' % k for k in ('1', '-7', '1 ', ' 2', '1x', '', 'true', 'false', 'tru', 'one', 'III', 'unnamed', '1.5', '1e2', '\xc3\xa9', '300', '[1,2]', '[]', '[1', '[1,\\"x\\"]', 
                                          '[\\"a b:=\\",false]', '{\\"a\\":1}', '{\\"a\\":1,\\"b\\":2}', 'null', 'nul', '{\\"0\\":1}', '{\\"1\\":\\"z\\"}', '{\\"2\\":1}')] + ['1', '"z"', 'true', ',', '}', '[3]', '{"5":6}']), 4 if th else 3)):
        ms = gen_typed(rep, MAPS, pre, toks, n)
        written.update(replay_typed(rep, MAPS, ms, bs, name, skipdoc=skip))
    check_written(rep, MAPS, written, 'maps written')
    ct = [t for t in SEQS if t.cbor]
    crun_parts(rep, ct, (
        ('cbor lists', H('', '80', '81', '82', '83', '8301', '9f', '9f01', '9f20', '819f', '8282', '9f9f', '9803', '9bffffffffffffffff', 'c1'),
         H('01', '20', '19012c', '6161', '80', '8101', '820203', '9f', 'ff', 'f5', '8201f4', 'f93c00', '4302ff03', '5f4101ff', '82016178', 'f6', 'c105', '1b7fffffffffffffff'), 4 if th else 2),), label='cbor lists ')
    ct = [t for t in MAPS if t.cbor]
    crun_parts(rep, ct, (
        ('cbor maps', H('a0', 'a1', 'a2', 'a3', 'bf', '81a1', '9fbf', 'a16161a1', 'b802', 'a201', 'bf01', 'a26161', 'bf6162', 'a20102', 'bf616101', 'a3010220', 'bbffffffffffffffff', 'bb8000000000000001', 'c1a1', 'a1a1'),
         H('01', '02', '20', '6161', '6162', '60', 'f4', 'f5', 'f93c00', '80', '8101', '82016161', 'a0', 'a1616105', 'ff', '8261 78f5'.replace(' ', ''), '0a', '1901f4', 'f7'), 4 if th else 2),), label='cbor maps ')
