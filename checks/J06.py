"""Destinations of output: the same bytes everywhere, exactly what fits into bounded ones (JSON and CBOR)."""
from jsonlib import *
from typedlib import *
from ctyped import H, cgen, STDC, CALPH

V = lambda t: seq('std::vector', t)
NODE = lambda n: Ty(n, ('node',))
COMMON = [I8, I32, U64, F64, F32, BOOL, NULL, STR, CHR, C16, C32, S16, S32, CSTR, E1, V(I32), V(STR), V(U8), V(CHR), V(BOOL), seq('std::list', U8), seq('std::forward_list', I8), seq('std::deque', CHR), st('std::set', U8),
          mp('std::map', I32, STR), mp('std::map', STR, V(STR)), sarr(I32, 2), bits(9), chars(4), tup(I32, STR, BOOL), tup(STR, F64, cpp='std::pair'), cplx(F64), opt(STR), uptr(I32), var(I32, STR, V(I32)), C1, C2, C3, V(C1), sec()]
JTYPES = COMMON + [NODE('cxon::json::node'), NODE('cxon::json::ordered_node'), C5, mp('std::map', V(I32), I32), mp('std::map', S16, U8), Ty('std::wstring', ('str', 32))]
CTYPES = COMMON + [NODE('cxon::cbor::node'), NODE('cxon::cbor::ordered_node'), NODE('cxon::json::node')]
BUILDS = (('c++20', '20', ()), ('c++11', '11', ('VH_ASSERT',)))


def limits(rep):
    """the machine of pieces and destinations: its outcomes are exactly those allowed"""
    n, c = 6, 7
    r = tlc('Sink', dict(MaxLen=n, MaxCap=c), ['Bounded', 'Prefix', 'Outcome', 'Out'], ['Ends'], stats=rep.stats)
    got = {tuple(x[1:]) for x in r}
    want = {(ln, cp, True, ln) for ln in range(n + 1) for cp in range(c + 1) if ln <= cp} | {(ln, cp, False, k) for ln in range(n + 1) for cp in range(c + 1) if ln > cp for k in range(cp + 1)}
    if got != want:
        raise CheckError('the outcomes of the machine are not those stated: %r' % sorted(got ^ want)[:5])
    rep.part('machine', outcomes=len(got))


def record(g):
    """'0:f0,0 1:o1,1! ' -> [[0, ok, 0, 0, touched, failure], ...]"""
    out = []
    for w in g.split():
        m = re.fullmatch(r'(-?\d+):([ofx])(\d+),(\d+)(!?)', w)
        if not m:
            return None
        out.append([int(m[1]), m[2] == 'o', int(m[3]), int(m[4]), m[5] == '!', m[2] == 'f'])
    return out


def sinks(rep, types, docs, cbor, builds=BUILDS, few=True):
    specs, lab = [], []
    for label, std, more in builds:
        ix = [i for i, t in enumerate(types) if t.std <= int(std) and (t.cbor if cbor else t.json)]
        if few and std == '11':
            ix = ix[::3]
        n = (len(ix) + 7) // 8
        for k in range(n):
            part = ix[k::n]
            p = write_list([(i, types[i]) for i in part], 'sc' if cbor else 'sj')
            specs.append(dict(source='sink', std=std, defs=['VH_LIST="%s"' % p, 'VH_FWD'] + list(more) + (['VH_CBOR'] if cbor else []), opt='-O0', name='sinkc' if cbor else 'sinkj'))
            lab.append((label, part))
    rows, seen = {}, []
    fmt = 'cbor' if cbor else 'json'
    for (label, part), b in zip(lab, build_many(specs)):
        cases = [(i, x) for i in part for x in docs]
        res = run_cases(b, ['S\t15\t%d\t%s' % (i, hexs(x)) for i, x in cases])
        for (i, x), r in zip(cases, res):
            def bad(dest, what, got, i=i, x=x, label=label):
                rep.violation('%s:%s:%s:%s' % (fmt, types[i].cpp, dest, x.hex()), 'value of %s read into %s (%s), written to %s: %s' % (show(x, cbor), types[i].cpp, label, dest, what),
                              {'format': fmt, 'input_hex': x.hex(), 'type': types[i].cpp, 'build': label, 'destination': dest, 'got': got[:2000]})
            if r in ('no', 'noput', 'SKIPPED'):
                continue
            n, _, body = r.partition('|')
            if not n.isdigit():
                bad('any', r[:200], r)
                continue
            rep.traces += 1
            for names, g in split_groups(body):
                q = record(g)
                if q is None:
                    bad(names, g[:200], g)
                    continue
                rep.traces += len(q) * len(names.split(','))
                rows.setdefault((int(n), tuple(map(tuple, q))), []).append((bad, names, g))
        rep.part('%s %s' % (fmt, label), values=sum(r not in ('no', 'noput', 'SKIPPED') for r in res))
    keys = list(rows)
    if not keys:
        raise CheckError('nothing was written')
    out = tlc('SinkRun', {}, ['Out', 'Seen'], files={'corpus.ndjson': ''.join(json.dumps(k) + '\n' for k in keys)}, stats=rep.stats)
    if sum(r[0] == 'D' for r in out) != len(keys):
        raise CheckError('not every record was judged')
    for r in sorted(r for r in out if r[0] == 'B'):
        k = keys[r[1] - 1]
        c, ok, n, same, touched, fail = k[1][r[2] - 1]
        what = '%s bytes of output %s' % (k[0], 'to a destination that never refuses' if c < 0 else 'to a capacity of %d' % c) + ': ' + ('succeeds' if ok else 'fails') + \
               ('' if ok or fail else ' with another error than output failure') + ', %d bytes held, %d of them as they should be' % (n, same) + (', touches what is outside' if touched else '')
        for bad, names, g in rows[keys[r[1] - 1]]:
            bad(names, what, g)
    rep.part('%s records' % fmt, records=len(keys), judged=sum(len(k[1]) for k in keys))


def pick(ds, n):
    ds = sorted(ds, key=lambda x: (len(x), x))
    return ds if len(ds) <= n else [ds[k * len(ds) // n] for k in range(n)]


def run(rep, tier):
    th = tier == 'thorough'
    limits(rep)
    n = 400 if th else 45

    def js(pre, toks, k):
        return pick([x[:e.n] for x, e in gen(rep, STD, pre, toks, k).items() if e.ok], n)
    words = parallel([
        lambda: js(T(''), T('[', ']', ',', '1', '-2', '"a"', 'true', 'null', '{', '}', '"ab":', '1.5'), 6 if th else 5),
        lambda: js(T('"', '["'), T('"', 'a', '\\"', '\\n', '\\u0001', '\xe2\x80\xa8', '\xf0\x9f\x98\x80', '/', '\\\\', '\\u007f', 'abcdefghijklmnop', '"]'), 4 if th else 3),
        lambda: js(T('', '[', '{"a":'), T('12345678901', '-', '1e300', '3.14159265358979', '-0.0', '255', '1', '65', '300', ',', ']', '}', '9'), 3)], 4)
    docs = [d for w in words for d in w]
    docs += T('"' + 'x' * 15 + '\\n' + 'y' * 20 + '"', '"' + 'x' * 64 + '"', '"' + 'x' * 40 + '\\u0000z"', '["abc","' + 'q' * 31 + '\\t"]', '[1,"abc",true]', '["k",1.25]', '{"a":5,"ab":"xyz","b":[1,2,3]}', '{"inner":{"a":1},"li":[{"b":[2]}],"d":2.5,"flag":true}',
              '{"s":"t","m":{"u":7},"z":9}', '"010110011"', '"abc"', '[1.5,-2.5]', '"two"', '{"0":1}', '{"1":"s"}', '{"12":"y","-3":"z"}', '{"k\\"":["a","b\\n"],"":[]}', '{"[1,2]":3}', '"\\u4e2d\\u6587\\ud83d\\ude00x"', '{"\\u20ac":200}', '1234567890123456789',
              '[null,[],{},"",0,-1,1.5,[[["deep"]]]]', '[-128,127]', '["a","b"]', '[true,false,true]', '"\\u0080"', '"\\u00e9"', '"NaN"', '"inf"', '"-inf"', '["nan","inf"]', '[3]')
    docs = list(dict.fromkeys(docs))
    sinks(rep, JTYPES, docs, False, few=not th)

    def cb(name, k):
        pre, toks, q, t = CALPH[name]
        return pick([x[:e.n] for x, e in cgen(rep, STDC, pre, toks, k).items() if e.ok], n)
    words = parallel([lambda a=a, k=k: cb(a, k) for a, k in (('structure', 4), ('integers', 3), ('floats', 3), ('strings', 3), ('tags', 3), ('keys', 3))], 4)
    docs = [d for w in words for d in w]
    docs += H('00', '17', '18ff', '1901f4', '1a00010000', '1b0000000100000000', '20', '3903e7', '3bffffffffffffff', '781e' + '61' * 30, '5818' + '01' * 24, '83016161f5', '826161fb3ff8000000000000', 'a3616105626162617a61628101', 'a265696e6e6572a1616101626c6981a0', 'a26173617461' + '6da1617507',
              '430701ff', '5f410101ff'.replace('5f410101ff', '420105'), '44010203ff', '8218ff00', '8300187f1900ff', '82f93c00fbc004000000000000', '0a', '820005', '8201617a', '82028101', 'f6', 'f7', 'f5', 'a1016161', 'a21901f4617820' + '60', 'a16161826162' + '60', '82613161' + '32', '846161626262' + '6363636364' + '64646464', 'e1', 'f8ff',
              'c11a514b67b0', 'd9d9f780', '9818' + '00' * 24, 'b81b' + ''.join('18%02x00' % k for k in range(30, 57)), '821a0001f6001a0001f600', '8100', '826178' + '626161', '43616263', '4101')
    docs = list(dict.fromkeys(docs))
    sinks(rep, CTYPES, docs, True, few=not th)
