"""Classes (JSON)."""
from typedlib import *

TYPES = [C1, C2, C3, C4, C5, C6, seq('std::vector', C1), mp('std::map', STR, C3), tup(C1, C4, cpp='std::pair'), opt(C4), seq('std::list', C2), C8]
KEYS = ('a', 'ab', 'b', 'skip', 's', 'm', 'z', 'i', 'x', 'j', 'y', 'k\\"1', 'k"1', '\xc3\xa9', 'k' * 62, 'k' * 63, 'k' * 64, 'k' * 65, 'k' * 66, '', 'A', 'aB', 'inner', 'li', 'd', 'flag', 'in', 'f')
FOLLOW = ('', '\\u0000', '\\u0000b', 'x', ' ', '\\u0020', '\\n', 'b', '\\', '\x00')
VALUES = ('1', '"s"', '[]', '{}', '2.5', 'true')


def keys():
    """every name, with everything that may follow or precede it"""
    out = []
    for k in KEYS:
        for f in FOLLOW:
            for v in VALUES:
                out.append('{"%s%s":%s}' % (k, f, v))
        if k and '\\' not in k:
            esc = ''.join('\\u%04x' % ord(c) if i else c for i, c in enumerate(k.encode('latin-1').decode('utf-8', 'replace')))
            out += ['{"%s":%s}' % (esc.encode('utf-8').decode('latin-1'), v) for v in VALUES] + ['{" %s":1}' % k, '{"\\u0000%s":1}' % k]
    return [x.encode('latin-1') for x in dict.fromkeys(out)]


SKIPPED = ('1', '"', '"}"', '"\\""', '[', ']', '{', '[]', '[[1],{"a":[2]}]', '{"a":{"b":"]"}}', '{"a":"}"}', '["]"]', 'null', '-1.5e3', '"\\\\"', '[{}]', '{"skip":1}', ' {} ', '[1 ,2]', '')


def skipped():
    """ignored members with values of every shape, alone and between others"""
    out = []
    for v in SKIPPED:
        for t in ('{"skip":%s}', '{"a":3,"skip":%s}', '{"skip":%s,"a":4}', '{"skip":%s,"b":[1],"a":4}', '{"skip": %s ,"ab":"t"}', '{"skip":%s', '{"skip":%s,', '[{"skip":%s}]', '[{"skip":%s},{"a":1}]', '{"i":%s,"x":3,"j":%s}'.replace('%s}', '1}')):
            out.append((t % v).encode('latin-1'))
    return list(dict.fromkeys(out))


def run(rep, tier):
    th = tier == 'thorough'
    bs = run_typed_parts(rep, TYPES, (
        ('members', T('{'), T('"a":', '"ab":', '"b":', '"skip":', '1', '"s"', '[1,2]', ',', '}', '"s":'), 7 if th else 6),
        ('nested', T('{"inner":{', '{"li":[{', '[{', '{"k":{'), T('"a":5', '"ab":"t"', '"b":[3]', '"skip":[{}]', '"z":1', '}', ']', ',', '"d":2.5', '"flag":true', '"x":9', '{'), 5 if th else 4)))
    for name, docs in (('names', keys()), ('ignored values', skipped())):
        ms = run_typed(rep, TYPES, docs)
        check_written(rep, TYPES, replay_typed(rep, TYPES, ms, bs, name), name + ' written back')

    # members without a key keep what they had; those with one take it (strings and containers are appended to)
    docs = T('{}', '{"a":1}', '{"ab":"q"}', '{"b":[1]}', '{"a":2,"b":[2]}', '{"skip":0}', '{"a":3,"ab":"r","b":[3],"skip":[]}', '{"s":"t"}', '{"m":{"k":1}}', '{"z":6}', '{"a":4,"s":"u","m":{"k":2},"z":7}',
             '{"x":8}', '{"y":9}', '{"x":10,"y":11}', '{"i":1,"y":12}', '{"inner":{"a":5}}', '{"d":1.5}', '{"flag":true}', '{"flag":false,"inner":{"a":6}}', '{"inner":{"ab":"v"}}', '{"li":[{"a":7}]}', '{"a":"x"}', '{"a":1,"q":2}')

    def merge(fs, old, new, keys):
        out = []
        for (name, t, _), o, n in zip(fs, old, new):
            k = bytes(name).decode('latin-1')
            if t[0] == 'skip' or k not in keys:
                out.append(o)
            elif t[0] == 'cls':
                v = merge(t[1], o[1], n[1], keys[k])
                if v is None:
                    return None
                out.append(['(', v])
            elif t[0] == 'seq':
                out.append(['[', o[1] + n[1]])
            elif t[0] == 'str':
                out.append(['s', o[1] + n[1]])
            elif t[0] == 'map':
                have = {tuple(k[1]): [k, v] for k, v in o[1]}
                have.update({tuple(k[1]): [k, v] for k, v in n[1]})
                out.append(['M', list(have.values())])
            else:
                out.append(n)
        return out

    def want(i, x, y, sx, sy):
        if TYPES[i].tla[0] != 'cls' or i not in x.r:
            return NotImplemented
        if i not in y.r:
            return None
        v = merge(TYPES[i].tla[1], x.r[i][1], y.r[i][1], json.loads(sy))
        return canon(['(', v])
    before_after(rep, TYPES, docs, docs, bs, 'members that are not given', want, texts=True)
