"""Dynamic values across histories of operations (JSON and CBOR, every allocator model, every choice of heap-kept alternatives)."""
from jsonlib import *

LONG = 'L'
TEXT = {LONG: b'a string of more than sixteen bytes'.hex()}
NUMK = {'null': 'n', 'undef': 'U', 'bool': 'b', 'uint': 'u', 'sint': 'i', 'real': 'r', 'str': 's', 'byt': 'y', 'sim': 'p'}
KINDC = dict(NUMK, arr='[', map='{', tag='t')


def L(k, v=''):
    return {'k': k, 'v': v}


def A(*e):
    return {'k': 'arr', 'e': list(e)}


def M(**kv):
    ks = list(kv)
    return {'k': 'map', 'ks': [k.encode().hex() for k in ks], 'e': [kv[k] for k in ks]}


def G(n, t):
    return {'k': 'tag', 'v': str(n), 'e': [t]}


def note(t):
    """tree -> notation; unknown values become '?'"""
    k = t['k']
    if k == '?':
        return '?'
    if k == 'arr':
        return '[' + ''.join(map(note, t['e'])) + ']'
    if k == 'map':
        return '{' + ''.join('s%s;%s' % (a, note(b)) for a, b in zip(t['ks'], t['e'])) + '}'
    if k == 'tag':
        return 't%s;%s' % (t['v'], note(t['e'][0]))
    return NUMK[k] + TEXT.get(t['v'], t['v']) + ';'


def one(s, i):
    """the end of the notation that begins at i"""
    c = s[i]
    if c in '[{':
        i += 1
        while s[i] not in ']}':
            i = one(s, i)
        return i + 1
    i = s.index(';', i) + 1
    return one(s, i) if c == 't' else i


def same(want, got):
    """notation with '?' against one without"""
    i = j = 0
    try:
        while i < len(want):
            if want[i] == '?':
                j = one(got, j)
                i += 1
            elif j < len(got) and want[i] == got[j]:
                i, j = i + 1, j + 1
            else:
                return False
    except (IndexError, ValueError):
        return False
    return j == len(got)


def opline(o, vals, lists):
    p = lambda q: '.'.join(str(x - (1 if n == 0 else 0)) for n, x in enumerate(q))
    k = o[0]
    if k in ('set', 'stm', 'ctr', 'ini'):
        return '%s %s %s' % (k, p(o[1]), note((lists if k == 'ini' else vals)[o[2] - 1]))
    if k == 'imb':
        return '%s %s %s' % (k, p(o[1]), KINDC[o[2]])
    if k == 'key':
        return '%s %s %s %s' % (k, p(o[1]), o[3], p(o[2]))
    if k in ('rst', 'pop', 'era'):
        return '%s %s' % (k, p(o[1]))
    return ' '.join([k] + [p(x) for x in o[1:]])


ALL = {'set', 'stm', 'ctr', 'ini', 'imb', 'rst', 'cpy', 'cct', 'cca', 'val', 'cst', 'mov', 'mct', 'mca', 'vmv', 'swp', 'psh', 'psm', 'wrp', 'key', 'pop', 'era'}
S = L('str', LONG)
J_INITS = [[A(S, A(S, L('uint', '1'))), M(a=S, b=A(S))],
           [S, A(M(a=A(S)), L('real', '3ff8000000000000'))],
           [M(a=M(b=S)), L('sint', '-5')]]
J_VALS = [S, L('real', '3ff8000000000000'), A(S), M(a=S), L('null'), L('bool', '1')]
J_LISTS = [M(), A(L('uint', '1'), S), M(b=L('uint', '2')), A(S)]
C_INITS = [[G(5, A(S, L('byt', LONG))), M(a=G(7, S))],
           [A(L('byt', '00'), G(1, L('sim', '19'))), L('undef')]]
C_VALS = [L('byt', LONG), G(9, S), L('undef'), L('sim', '200'), L('uint', '18446744073709551615')]
KEYS = ['61', '62']


def histories(rep, lang, ordered, inits, ops, depth, vals=None, lists=None, maxsize=8, maxpath=2, walks=0, trees=False):
    vals = vals if vals is not None else (J_VALS if lang == 'json' else C_VALS)
    lists = lists if lists is not None else J_LISTS
    c = dict(Lang=lang, Ordered=ordered, Inits=inits, Vals=vals, Lists=lists, Keys=KEYS, Ops=set(ops), Depth=depth, MaxSize=maxsize, MaxPath=maxpath)
    seen = {}

    def case(first, os, last):
        seen['|'.join(map(note, first)) + '\t' + (','.join(opline(o, vals, lists) for o in os) or '-')] = '|'.join(map(note, last))
    if trees:
        every = {}
        for r in tlc('NodeVal', c, ['TypeOK', 'Out'], ['Frame'], stats=rep.stats):
            for t in r[2]:
                if '?' not in note(t):
                    every.setdefault(note(t), t)
        return [every[k] for k in sorted(every)]
    if not walks:
        for r in tlc('NodeVal', c, ['TypeOK', 'Out'], ['Frame'], stats=rep.stats):
            case(r[1][0], r[1][1:], r[2])
        return seen
    rnd = random.Random(SEED * 1000003 + len(lang) + depth)
    kinds = sorted(KINDC if lang == 'cbor' else set(KINDC) - {'tag', 'byt', 'sim', 'undef'})
    place = lambda: [rnd.randint(1, 2)] + [rnd.choice((1, 1, 2, 3)) for _ in range(rnd.choice((0, 0, 1, 1, 2, 3)))]

    def req():
        n = rnd.choice(ops_)
        if n in ('set', 'stm', 'ctr'):
            return [n, place(), rnd.randint(1, len(vals))]
        if n == 'ini':
            return [n, place(), rnd.randint(1, len(lists))]
        if n == 'imb':
            return [n, place(), rnd.choice(kinds)]
        p = place()
        return [n, p, p if n in ('rst', 'pop', 'era') else place()] + ([rnd.choice(KEYS)] if n == 'key' else [])
    ops_ = sorted(ops) + ['psh', 'psm', 'key', 'swp', 'mov', 'val', 'vmv'] * 2
    corpus = [[rnd.randint(1, len(inits)), [req() for _ in range(depth * 3)]] for _ in range(walks)]
    for r in tlc('NodeRun', c, ['RTypeOK', 'ROut'], files={'corpus.ndjson': ''.join(json.dumps(x) + '\n' for x in corpus)}, init_next=('RInit', 'RNext'), stats=rep.stats):
        i, os = corpus[r[1] - 1]
        case(inits[i - 1], [os[k - 1] for k in r[2]], r[3])
    return seen


def replay(rep, label, b, cases):
    lines = sorted(cases)
    res = run_cases(b, ['H\t' + x for x in lines], crash_limit=2)
    for x, r in zip(lines, res):
        if r == 'SKIPPED':
            continue
        rep.traces += 1
        want, (ini, _, ops) = cases[x], x.partition('\t')
        parts = r.split('|')
        n = want.count('|') + 1
        w = want.split('|')
        ok = len(parts) == 2 * n and all(same(a, g) for a, g in zip(w, parts))
        what = 'expected %s, got %s' % (want, '|'.join(parts[:n]))
        if ok:
            for i in range(n):
                for j in range(n):
                    e = parts[n + i][j:j + 1]
                    known = '?' not in w[i] and '?' not in w[j]
                    if len(parts[n + i]) != n or (e != '=' if i == j else known and (e == '=') != (w[i] == w[j])):
                        ok, what = False, 'equality of the values %s and %s is reported as %s' % (w[i], w[j], parts[n + i])
        elif len(parts) > 2 * n or r.startswith('CRASH'):
            what = r if r.startswith('CRASH') else ', '.join(parts[2 * n:])
        if not ok:
            rep.violation('%s:%s:%s' % (label, ini, ops), 'dynamic values %s after %s (%s): %s' % (ini, ops, label, what[:600]), {'build': label, 'initial': ini, 'operations': ops, 'expected': want, 'got': r[:2000]})
    rep.part(label, histories=sum(r != 'SKIPPED' for r in res))
    if lines:
        rep.sample({'build': label, 'history': lines[len(lines) // 2][:300]})


def cfg(cbor, ordr, al, dyn, std):
    lab = '%s%s, allocator %s, %s, c++%s' % ('cbor' if cbor else 'json', ' ordered' if ordr else '', {0: 'std', 99: 'pmr'}.get(al, 'stateful %d' % al), ('default storage', 'more in the heap', 'lists in place')[dyn], std)
    return lab, dict(source='nval', std=std, defs=['VH_AL=%d' % al, 'VH_DYN=%d' % dyn] + (['VH_CBOR'] if cbor else []) + (['VH_ORD'] if ordr else []), opt='-O0', name='nval')


def run(rep, tier):
    th = tier == 'thorough'
    conf = [(0, 0, 0, 0, '20'), (0, 0, 99, 0, '20'), (0, 0, 7, 0, '11'), (0, 1, 1, 1, '11'), (1, 0, 0, 0, '11'), (1, 0, 7, 0, '20'), (1, 1, 99, 0, '20'), (1, 0, 0, 2, '20')]
    if th:
        conf += [(0, 0, 0, 1, '20'), (0, 0, 0, 2, '11'), (0, 0, 1, 0, '20'), (0, 0, 3, 0, '20'), (0, 0, 5, 0, '20'), (0, 1, 0, 0, '11'), (0, 1, 99, 0, '17'),
                 (1, 0, 1, 0, '20'), (1, 0, 3, 0, '11'), (1, 0, 5, 0, '20'), (1, 1, 0, 0, '20'), (1, 0, 99, 0, '20'), (1, 0, 0, 1, '11'), (0, 0, 0, 0, '17'), (0, 0, 0, 0, '23')]
    labs = [cfg(*c) for c in conf]
    CB = (ALL | {'tag'})
    small = [A(S, M(a=S)), S]
    store = {'mov', 'cpy', 'val', 'vmv', 'swp', 'psh', 'imb'}
    jobs = {
        'j': lambda: histories(rep, 'json', False, J_INITS, ALL, 1),
        'j2': lambda: histories(rep, 'json', False, [small], ALL - {'cct', 'cca', 'mca'}, 2, vals=[S, A(S)], lists=[M(b=L('uint', '2'))], maxpath=1 if not th else 2),
        'j3': lambda: histories(rep, 'json', False, [[A(S), S]], store - {'imb'} if not th else store, 3 if not th else 4, maxsize=6, maxpath=1),
        'jo': lambda: histories(rep, 'json', True, J_INITS, ALL, 1),
        'jw': lambda: histories(rep, 'json', False, J_INITS, ALL, 15, maxsize=14, walks=6000 if th else 800),
        'c': lambda: histories(rep, 'cbor', False, C_INITS + J_INITS[:1], CB, 1),
        'c2': lambda: histories(rep, 'cbor', False, [[G(5, S), L('byt', LONG)]], CB - {'cct', 'cca', 'mca', 'ini', 'key', 'era', 'pop'}, 2, vals=[L('byt', LONG), G(9, S)], maxpath=1),
        'co': lambda: histories(rep, 'cbor', True, C_INITS, CB, 1),
        'cw': lambda: histories(rep, 'cbor', False, C_INITS, CB, 15, vals=C_VALS + J_VALS, maxsize=14, walks=6000 if th else 800),
    }
    bins = {}

    def builds():
        for (lab, _), b in zip(labs, build_many([s for _, s in labs])):
            bins[lab] = b
    names = list(jobs)
    got = parallel([builds] + [jobs[k] for k in names], 4)
    H_ = dict(zip(names, got[1:]))
    for k in names:
        rep.part('histories ' + k, generated=len(H_[k]))
    for c, (lab, _) in zip(conf, labs):
        cases = {}
        for k in names:
            ordr = k in ('jo', 'co')
            if (k[0] == 'c') != bool(c[0]) or ordr != bool(c[1]) and not (ordr is False and False):
                continue
            cases.update(H_[k])
        replay(rep, lab, bins[lab], cases)
    rep.assumptions.append('a node that was moved from holds some value of one alternative; which one is not judged until it is assigned again')
    rep.assumptions.append('moving or swapping a node into itself from above (an ancestor into its descendant) has no meaning and is not generated; allocators that propagate on swap do not compile with nodes')
