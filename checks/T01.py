"""Targets of fixed capacity."""
from typedlib import *
from ctyped import crun_parts, H

TYPES = [sarr(I32, 3), sarr(I32, 0), carr(I32, 3), chars(4), chars(1), span(I32, 3), span(STR, None), bits(5), bits(0), bits(70), tup(I32, STR, cpp='std::pair'), tup(I32, STR, BOOL), tup(), tup(I32),
         cplx(F64), cplx(F32), sarr(STR, 2), sarr(sarr(I32, 2), 2), carr(tup(I32, I32, cpp='std::pair'), 2), tup(sarr(I32, 2), tup(STR, STR, cpp='std::pair')), seq('std::vector', sarr(I32, 2)),
         sarr(seq('std::vector', I32), 2), seq('std::list', tup(I32, STR, cpp='std::pair')), sarr(BOOL, 1), sarr(U8, 4)]
BITS = [bits(5), bits(0), bits(1), bits(8), bits(64), bits(65), bits(70), chars(1), chars(4), chars(8), bits(3)]


def run(rep, tier):
    th = tier == 'thorough'
    run_typed_parts(rep, TYPES, (
        ('lists', T('', '[', '[['), T('[', ']', ',', '1', '2', '"a"', 'true', ' ', '-3'), 6 if th else 5),
        ('arity', T('[1,', '[[1,2],', '[1,"x",', '[1,2,3,', '["a",', '[1.5,', '[1,"x",true,'), T('1', '[3,4]', '["a","b"]', '"z"', 'false', 'null', '[5]', '[6,7,8]', ',', ']', '2.5', '[', '300'), 4 if th else 3)), label='lists ')
    # bits are spelled out: escapes in their place are not judged
    run_typed_parts(rep, BITS, (
        ('bits and characters', T('"', '""', ' "', '1', '["', '"' + '01' * 31, '"' + '1' * 64, '"' + '0' * 68), T('0', '1', '01', '2', ' ', '"', 'a', '\\u0031', '\\n', '\xc3\xa9', '\t', '\\'), 6 if th else 3),), skip=lambda t, x: t.tla[0] == 'bits' and b'\\' in x, label='strings ')
    # (fixed storage for strings and pairs does not compile for CBOR)
    # the same targets from CBOR: every announced and every delivered length around the capacity, in every width of head
    crun_parts(rep, [t for t in TYPES if t.cpp not in ('std::span<std::string>', 'std::array<std::string, 2>', 'std::pair<int, int>[2]')] + BITS[3:7], (
        ('cbor lists', H('', '80', '81', '82', '83', '84', '85', '8301', '840102', '9f', '9f0102', '9f010203', '9f9f', '8282', '9f82', '9803', '9804', '990003', '9b0000000000000003', '9b8000000000000001', '9bffffffffffffffff'),
         H('01', '20', '6161', '80', '8101', '820203', '83040506', '8201', '9f', 'ff', 'f5', 'f93c00', '43070809', '4401020304'), 4 if th else 2),
        ('cbor strings', H('', '60', '61', '62', '63', '64', '65', '40', '41', '42', '43', '44', '49', '4a', '5f', '7f', '7803', '7804', '7805', '790004', '5803', '780b', '7bffffffffffffffff', '5b0000000000000002', '81', '8261', '8441'),
         H('00', '01', '03', '06', '07', '1f', 'e0', 'ff', '80', '61', '62', '63', '6178', '4107'), 4 if th else 3)), label='cbor ')
