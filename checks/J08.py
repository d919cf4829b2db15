"""Dialect options change the accepted language exactly as documented."""
from typedlib import *
from docs import random_json, mutate
from types_ import opt as optional
from jsonlib import opt

ON = dict(cm=dict(cm=True), ts=dict(ts=True), jn=dict(jn=True), bk=dict(key='b'), cx=dict(cm=True, jn=True, sep=32, div=61, key='b'))
DEFS = dict(cm=('VH_CM=1',), ts=('VH_TS=1',), jn=('VH_JN=1',), bk=('VH_QU=0',), cx=('VH_CXCF',))
# dialects of dynamic values: name, features, defines
NODES = [(k, opt(**ON[k]), DEFS[k]) for k in ON] + [
    ('cm+ts+jn', opt(cm=True, ts=True, jn=True), DEFS['cm'] + DEFS['ts'] + DEFS['jn']),
    ('cm+bk', opt(cm=True, key='b'), DEFS['cm'] + DEFS['bk']),
    ('ts+jn+bk', opt(ts=True, jn=True, key='b'), DEFS['ts'] + DEFS['jn'] + DEFS['bk'])]

MORE = T('[/', '[/*', '[/**', '[//', '1/', '[1/', '[1/*', '{/', '{"a"/', '{"a":/', '{"a":1/*', '{"a":1//', '{"a":1,/', '[1,/', '[1,/**/', '/', '/*', '/**', '//', '//\n', '/**/', '[1,', '[1, ', '{"a":1,', '{"a":1, ', '[N', '[Na', '[NaN', '[I', '[Infinit', '[Infinity', '[-I', '[-Infinity', '[-N', '[-NaN', 'N', 'NaN', '-Infinity',
         '{1', '{-', '{1.', '{tru', '{true', '{null', '{[', '{[1', '{[1]', '{{', '{{}', '{{"a":1}', '{{1:2}', '{[]:1', '{[]:1,', '{[[]]', '{NaN', '{-Infinity', '{"a"=', '{"a"=1', '{"a"=1 ', '{1=', '{1=2', '{[1 2]', '{[1 2]=', '[1 ', '[1 2', '["a""b"', '[[][]', '{"a"=1 "b"', '{"a"=[]"b"', '{{}=1', '{1=[2]3')
ALPHX = {
    # name: (prefixes, tokens, quick, thorough)
    'comments': (T('', '[', '{', '[1', '{"a"', '{"a":1'), T('/', '*', '\n', '/*', '*/', '//', '"', ',', '1', ']', '}', ':', '"b"'), 3, 4),
    'separators': (T('[', '{', '[[', '{"a":['), T(',', '1', '"a":1', '"b"', ' ', ']', '}', '[', '{', '/**/'), 4, 5),
    'words': (T('', '[', '{', '{"a":'), T('NaN', 'Infinity', '-', 'N', 'aN', 'Inf', 'inity', 'nan', '1', ',', ':', ']', '}', '"NaN"', 'null'), 4, 5),
    'keys': (T('{', '{"a":{', '{[', '{{'), T('1', '-2.5e1', 'true', 'null', '[', ']', '{', '}', ':', '=', ',', '"a"', ' '), 4, 5),
    'configuration': (T('{', '[', '{"a"=', '{1='), T('"a"=', '1', '=', ' ', '[', ']', '{', '}', ',', '"b"', 'true', '-', '/*c*/'), 4, 5),
}
# typed targets of each spelling of keys
IDX = mp('std::map', I32, STR)
PAIRK = Ty('std::map<std::pair<int, int>, int>', ('map', ('tup', [I32.tla, I32.tla]), I32.tla), cbor=False)
LISTK = Ty('std::map<std::vector<int>, std::string>', ('map', ('seq', I32.tla), STR.tla), cbor=False)
BASE = [F64, STR, seq('std::vector', I32), sarr(I32, 2), tup(I32, STR, BOOL), tup(I32, STR, cpp='std::pair'), cplx(I32), var(I32, I32), uptr(I32), seq('std::vector', F64), mp('std::map', STR, I32),
        mp('std::map', STR, mp('std::map', STR, I32)), C1, C2, C3, C4, C5, seq('std::vector', C3)]
LISTS = BASE[:10]
NAMES = [STR] + BASE[10:]
VALKEYS = [IDX, mp('std::map', F64, BOOL), mp('std::map', BOOL, I32), mp('std::map', I32, mp('std::map', I32, I32)), PAIRK, LISTK]
Q = BASE + VALKEYS[:4] + [mp('std::map', E1, I32), C6]
U = NAMES + [tup(I32, STR, BOOL)] + [mp('std::map', E1, I32), mp('std::unordered_map', S16, I32), mp('std::multimap', S32, I32, multi=True), C6]
# (name, spelling, types, defines, parts); parts: name, prefixes, tokens, quick, thorough
JTOK = T('[', ']', '{', '}', ',', ':', '1', '"a"', ' ', '/**/')
TYPED = [
    ('classes and containers, all features', opt(cm=True, ts=True, jn=True), Q, DEFS['cm'] + DEFS['ts'] + DEFS['jn'], [
        ('lists', T('[', '["x",', '[1,"s",', ' [{', '/*/'), T('1', '"b"', ',', ']', ' ', '//c\n', 'NaN', '-Infinity', 'true', '{', '}', '"nan"'), 4, 5),
        ('members', T('{', '{"a":1', '{"x":1,', '[{"a":', '{"m":{', '{"inner":{"b":[', '{"1":"x"', '{"1.5":true'), T('"a":', '"b":', '1', ',', '}', ']', '[', '{', '//\n', '"ab":"t"', '"skip":[1,]'), 4, 5)]),
    ('classes and containers, comments only', opt(cm=True), BASE, DEFS['cm'], [
        ('anywhere', T('', '[', '{', '{"a"', '{"a":1', '[1', '{"skip":1', '{"b":['), T('/*', '*/', '//', '\n', '/', ',', '1', ']', '}', ':', '"ab":""'), 4, 5)]),
    ('classes and containers, trailing separators only', opt(ts=True), BASE, DEFS['ts'], [
        ('anywhere', T('[', '{', '{"m":{', '[1', '[{"a":1', '{"a":1', '{"li":['), T(',', '1', '"a":2', '"b":[', ' ', ']', '}', '"k":1', '{'), 4, 6)]),
    ('numbers in words only', opt(jn=True), [F64, F32, seq('std::vector', F64), mp('std::map', STR, F64), optional(F64), uptr(F32)], DEFS['jn'], [
        ('anywhere', T('', '[', '{"a":', '-', '"'), T('NaN', '-', 'Infinity', 'Inf', 'N', 'nan', 'inf', '"nan"', '"-inf"', ']', '}', ',', '1', 'null', '"'), 3, 4)]),
    ('bare keys', opt(key='b'), VALKEYS, DEFS['bk'], [
        ('keys', T('{', '{1:', '{1.5:', '{[1,2]', '{[', '{true:1'), T('1', '-2.5', 'true', '"a"', ':', ',', '}', '{', '[', ']', ' ', '"1"'), 4, 5)]),
    ('unquoted keys', opt(key='u'), U, ('VH_UQ=1',), [
        ('keys', T('{', '{"a":1,', '{ab', '{a', '{one:', '{a:{'), T('a', '"', ':', '\\', ' ', '\\u0061', '\xc3\xa9', '1', ',', '}', 'one', 'b:'), 4, 5),
        ('escapes', T('{a', '{', '{\xe2', '{x:1,\\'), T('\\', 'u', '006', '1', ' ', ':', '=', '"', 'n', '\x01', '\x80', '\xa8', 'ud83d', '\\ude00', '/', '}'), 4, 5)]),
    ('configuration files', opt(cm=True, jn=True, sep=32, div=61, key='u'), U, ('VH_CXCF',), [
        ('members', T('{', '{a=', '{ab="x"', '{inner={', '{one=1', '{m={', '{skip='), T('a', '=', ' ', '1', '"s"', '{', '}', '[', ']', '/*c*/', 'b=', 'ab='), 4, 5),
        ('lists', T('[', '[[', '["a"', '[{a=1}', '{b=['), T('1', '"x"', ' ', ',', ']', '[', '-', 'NaN', '{', '}', '//\n', 'true'), 4, 5)]),
    ('configuration files, bare keys', opt(cm=True, jn=True, sep=32, div=61, key='b'), VALKEYS, ('VH_CXCF',), [
        ('keys', T('{', '{1=', '{1.5=', '{[1 2]', '{[', '{true=1'), T('1', '-2.5', 'true', '"a"', '=', ' ', '}', '{', '[', ']', ',', '/**/', 'NaN'), 4, 5)]),
    ('configuration files, bare members', opt(cm=True, jn=True, sep=32, div=61, key='u', top=True), [C9], ('VH_CXCF',), [
        ('members', T('', 'a=1', 's.x="', 'l=[', 'm={', ' skip = ', '/**/'), T('a', '=', ' ', '1', '"s"', '"', '{', '}', '[', ']', '//\n', 'l=', 's.x=', '\0', 'm=', 'k='), 4, 5)]),
    ('bare members', opt(top=True), [C9], (), [
        ('members', T('', '"a":1', '"s.x":"', '"l":[', '"m":{', ' "skip" : '), T('"a"', ':', ' ', '1', '"s"', '"', '{', '}', '[', ']', ',', '"l":', '"s.x":', '\0', '"m":', '"k":'), 4, 5)]),
]



PLAIN = re.compile(rb'skip"?[=:](-?\d+|true|false|null|"[a-z0-9]*"|\[[0-9 ,]*\])(}| +[a-z"{}])')


def loose(t, doc):
    """without separators, or without braces, only plain ignored values end where the next member begins"""
    return has_skip(t.tla) and doc.count(b'skip') != len(PLAIN.findall(doc))


def run(rep, tier):
    th = tier == 'thorough'
    rng = random.Random(SEED)
    # the features are conservative: two readers in lockstep
    jobs = []
    for _, o, _ in NODES:
        if o['sep'] == 44:
            jobs.append(lambda o=o: tlc('JsonConserve', dict(Plain=STD, More=o, Tokens=T('[', ']', '{', '}', ',', ':', '"a"', '1', '/', '*', '\n', 'N', '-', 'null', 'Infinity'), Prefixes=T('', '[1', '{"a":1,', '{"', '[-'), MaxTok=6 if th else 4),
                        ['Conservative', 'Extends'], stats=rep.stats))
    # dynamic values
    stds = ('20', '11') if th else ('20',)
    bl = build_many([dict(source='jnode', std=s, defs=d, opt='-O0') for _, _, d in NODES for s in stds])
    docs = [random_json(rng) for _ in range(600 if th else 60)]
    docs = [d for d in docs if len(d) < 200]
    words = T('/**/', '//\n', '/* * / **/', ',', 'NaN', '-Infinity', '1:', '{}:', 'null=', '=', ' ', 'Infinity')
    for d in list(docs):
        for _ in range(4):
            p = rng.randrange(len(d) + 1)
            w = rng.choice(words)
            docs.append(d[:p] + w + d[p:])
        docs.append(d.replace(b',', b' ').replace(b':', b'='))
        docs.append(d.replace(b',', b' /*,*/ ').replace(b':', b' //:\n = '))
        docs.append(d.replace(b']', b',]').replace(b'}', b',}'))
    docs = list(dict.fromkeys(docs))

    def node(k):
        name, o, _ = NODES[k]
        bins = [('%s, c++%s' % (name, s), bl[k * len(stds) + j]) for j, s in enumerate(stds)]
        some = ('O',) if not th else ('N', 'O')
        single = name in ON
        exps = gen(rep, o, MORE if not th else MODES + MORE, ALLBYTES, 1)
        replay_node(rep, exps, bins, 'dynamic, %s: every byte' % name, ops=some, mask=255 if th else 1 | 8, sigp=name + ':')
        for a, (pre, toks, q, t) in ALPHX.items():
            if not single and not th:
                q -= 1
            exps = gen(rep, o, pre, toks, t if th else q)
            replay_node(rep, exps, bins, 'dynamic, %s: %s' % (name, a), ops=some, mask=255 if th else 1 | 8, sigp=name + ':')
        exps = dict(zip(docs, run_machine(rep, o, docs)))
        replay_node(rep, exps, bins, 'dynamic, %s: documents' % name, ops=some, mask=255 if th else 1 | 8, sigp=name + ':')

    def typed(name, o, types, defs, parts):
        bs = binaries(types, JSON_BUILDS if th else JSON_BUILDS[:1], defs=defs, chunk=8 if th else 6)
        written = {}
        for part, pre, toks, q, t in parts:
            ms = gen_typed(rep, types, pre, toks, (t if th else q - 1), o)
            written.update(replay_typed(rep, types, ms, bs, '%s: %s' % (name, part), o=o, sigp=name + ':', skipdoc=loose if o['sep'] == 32 or o['top'] else None))
        check_written(rep, types, written, '%s: written back' % name, o, sigp=name + ':')

    parallel(jobs + [lambda k=k: node(k) for k in range(len(NODES))] + [lambda g=g: typed(*g) for g in TYPED if th or not g[0].endswith(' only')], 4)
    rep.assumptions += ['under unquoted keys the quotes around a key belong to it, as documented', 'where no separators are needed, an ignored value that is a bare word reaches up to the next white space: not judged', 'single features are combined as listed, not in every combination']
