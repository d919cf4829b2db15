"""Storage a read allocates comes from the given allocator and is never lost."""
from jsonlib import *

INT, TXT, CLS = ('int',), ('txt',), ('cls', ('int',), ('int',))
def ptr(t): return ('ptr', t)
def own(t): return ('own', t)
def lst(t): return ('list', t)
def mp(t): return ('map', t)
CH, WCH = ('str', 1), ('str', 2)
POINTERS = {
    'int*': ptr(INT), 'int**': ptr(ptr(INT)), 'int***': ptr(ptr(ptr(INT))), 'const int*': ptr(INT), 'const int* const*': ptr(ptr(INT)),
    'string*': ptr(TXT), 'vector<int>*': ptr(lst(INT)), 'vector<int>**': ptr(ptr(lst(INT))), 'class*': ptr(CLS),
    'char*': CH, 'const char*': CH, 'char16_t*': WCH, 'char32_t*': WCH, 'wchar_t*': WCH, 'const char32_t*': WCH, 'char8_t*': CH,
    'char**': ptr(CH), 'char16_t***': ptr(ptr(WCH)), 'const char**': ptr(CH)}
HOLDERS = {
    'vector<int*>': lst(ptr(INT)), 'vector<char*>': lst(CH), 'deque<char**>': lst(ptr(CH)), 'list<char16_t*>': lst(WCH), 'list<int**>': lst(ptr(ptr(INT))),
    'array<int*>': lst(ptr(INT)), 'array<char*>': lst(CH), 'pair<int*,char*>': ('pair', ptr(INT), CH), 'tuple<char*,int**>': ('pair', CH, ptr(ptr(INT))),
    'map<string,int*>': mp(ptr(INT)), 'map<string,char*>': mp(CH), 'map<string,vector<char*>>': mp(lst(CH))}
OWNERS = {
    'class': ('cls', ptr(INT), CH), 'class of pointers*': ptr(('cls', ptr(INT), CH)), 'vector<class*>': lst(ptr(('cls', ptr(INT), CH))), 'vector<int*>*': ptr(lst(ptr(INT))),
    'vector<vector<int*>>': lst(lst(ptr(INT))), 'unique<int>': own(INT), 'unique<vector<int>>': own(lst(INT)), 'shared<int>': own(INT), 'shared<string>': own(TXT),
    'vector<shared<string>>': lst(own(TXT)), 'map<string,shared<int>>': mp(own(INT)), 'shared<class>': own(('cls', own(INT), own(lst(INT)))),
    'pair<unique<int>,shared<int>>': ('pair', own(INT), own(INT)), 'shared<shared<int>>': own(own(INT)), 'shared<char>': CH, 'shared<char16_t>': WCH,
    'smart class': ('cls', own(INT), own(lst(INT))), 'shared<int>*': ptr(own(INT)), 'optional<int*>': ptr(INT), 'optional<char*>': CH}
NEW = {'char8_t*': '20', 'optional<int*>': '20', 'optional<char*>': '20'}


def string(n, units=None):
    u = units or list(b'abcdefghijklmnopqrstuvwxyz012345'[:n])
    h = [0x60 + n] if n < 24 else [0x78, n]
    w = [0x80 + n] if n < 24 else [0x98, n]
    return dict(j=u, c=h + u, w=w + [x for b in u for x in ((b,) if b < 24 else (0x18, b))], n=n)


def strs(ns):
    esc = dict(j=list(b'\\u0000\\n'), c=[0x62, 0, 10], w=[0x82, 0, 10], n=2)
    return [string(n) for n in ns] + [esc, dict(string(3), c=[0x7f, 0x61, 97, 0x62, 98, 99, 0xff])]


def generate(rep, types, ss, items, nulls, fails):
    r = tlc('StoreGen', dict(Types=list(types.values()), Strs=ss, MaxItems=items, Nulls=nulls, Fails=fails), ['Kept', 'Whole', 'Forward', 'Out'], stats=rep.stats)
    names = list(types)
    out = {}
    for _, x, res, j, c, live in r:
        ns = list(live.values()) if isinstance(live, dict) else list(live)
        out.setdefault((names[x - 1], res), []).append((bytes(j), bytes(c), ns))
    return out


def events(s):
    """the recorded history in the terms of the specification"""
    out = []
    for e in s.split():
        k, a = e[0], e[1:]
        try:
            if k in 'AF' and a:
                out.append([k] + [int(x) for x in a.split('.')])
            elif k == 'E':
                out.append([k, [[int(y) for y in x.split('.')] for x in a.split('+')] if a else []])
            elif k == 'Z':
                out.append([k, [int(x) for x in a.split('+')] if a else []])
            else:
                out.append(['X', e])
        except ValueError:
            out.append(['X', e])
    return out


def below(ev, n):
    """what the call lost are only blocks of plain pointers inside values that it released: 'below', otherwise 'store'"""
    if n > len(ev) or ev[n - 1][0] != 'E':
        return 'store'
    at, gone = {}, {}
    for k, e in enumerate(ev[:n - 1]):
        if e[0] == 'A':
            at[e[1]] = (k, e[2], e[3])
        elif e[0] == 'F':
            gone[e[1]] = k
    owned = {b[0] for b in ev[n - 1][1]}
    live = {b for b in at if b not in gone}
    if owned - live:
        return 'store'
    return 'below' if all(any(at[p][0] < at[b][0] < gone[p] and at[p][1] >= 16 and at[p][2] == 1 for p in gone) for b in live - owned) else 'store'


class Ledger:
    """histories recorded, each different one judged once"""
    def __init__(self):
        self.rows, self.seen = [], {}

    def add(self, s, wanted, what):
        key = (s, None if wanted is None else tuple(sorted(wanted)))
        if key not in self.seen:
            self.seen[key] = len(self.rows)
            self.rows.append([s, wanted, what, 0])
        self.rows[self.seen[key]][3] += 1

    def judge(self, rep, part):
        rows = self.rows
        for k in range(0, len(rows), 20000):
            some = rows[k:k + 20000]
            corpus = ''.join(json.dumps([events(s), [] if w is None else [w]]) + '\n' for s, w, _, _ in some)
            r = tlc('StoreRun', dict(), ['Out'], files={'corpus.ndjson': corpus}, stats=rep.stats)
            got = {x[1]: x[2] for x in r}
            if sorted(got) != list(range(1, len(some) + 1)):
                raise CheckError('histories not judged: %d of %d' % (len(got), len(some)))
            for d, n in got.items():
                s, w, what, _ = some[d - 1]
                if n:
                    ev = s.split()
                    rep.violation('%s:%s:%s' % (below(events(s), n), what['type'], what['doc']),
                                  '%s from %s %s (%s, %s, %s): event %d (%s) of %s is not allowed%s' % (
                                      what['type'], what['format'], what['doc'], what['build'], what['how'], what['result'], n, ev[n - 1] if n <= len(ev) else '-', s[:400],
                                      '' if w is None else '; units wanted %s' % w), dict(what, history=s, event=n))
        rep.part(part, histories=len(rows), calls=sum(r[3] for r in rows))
        rep.traces += sum(r[3] for r in rows)
        for r in rows[:1]:
            rep.sample(dict(r[2], history=r[0]))


def replay(rep, bins, docs, part, seed, most, faulty):
    led, fed = Ledger(), Ledger()
    rng = random.Random(seed)
    for label, std, b, names in bins:
        for fmt, ix in (('J', 0), ('C', 1)):
            lines, about = [], []
            for (t, res), ds in docs.items():
                if t not in names or NEW.get(t, '11') > std:
                    continue
                ds = ds if len(ds) <= most else rng.sample(ds, most)
                for d in ds:
                    lines.append('%s\t%s\t%s' % (fmt, t, hexs(d[ix])))
                    about.append((t, res, d[ix], d[2], ''))
                for d in (ds if len(ds) <= faulty else rng.sample(ds, faulty)) if res == 'read' else ():
                    lines.append('X%s\t%s\t%s' % (fmt, t, hexs(d[ix])))
                    about.append((t, 'fault', d[ix], None, 'X'))
            for (t, res, d, ns, x), r in zip(about, run_cases(b, lines)):
                what = {'type': t, 'doc': d.hex(), 'format': fmt, 'build': label}
                if r == 'SKIPPED':
                    continue
                if x:
                    for h in r.split(';'):
                        h, _, how = h.partition('@')
                        if h[:1] not in 'rb':
                            rep.violation('store:%s:%s' % (t, d.hex()), '%s from %s %s (%s): %s' % (t, fmt, d.hex(), label, h[:300]), dict(what, got=h))
                            break
                        k, _, ev = h.partition(' ')
                        fed.add(ev, None, dict(what, result=k, how=how))
                    continue
                for paths, g in split_groups(r):
                    k, _, ev = g.partition(' ')
                    if k not in ('read', 'refused') or res == 'read' and k != 'read':
                        rep.violation('store:%s:%s' % (t, d.hex()), '%s from %s %s (%s, %s): expected to be read, got %s' % (t, fmt, d.hex(), label, paths, g[:300]), dict(what, got=g))
                        continue
                    led.add(ev, ns if k == 'read' and res == 'read' else None, dict(what, result=k, how=paths))
    led.judge(rep, part + ', documents')
    fed.judge(rep, part + ', failures everywhere')


def run(rep, tier):
    th = tier == 'thorough'
    sets = {'pointers': POINTERS, 'holders of pointers': HOLDERS, 'owners': OWNERS}
    specs = [(n, std, k) for k, n in enumerate(sets) for std in ('20', '11')]
    bins = build_many([dict(source='store', std=std, defs=['VH_CHUNK=%d' % k], name='store%d' % k) for _, std, k in specs])
    by = {}
    for (n, std, k), b in zip(specs, bins):
        by.setdefault(n, []).append(('c++' + std, std, b, sets[n]))
    lens = (0, 1, 6, 7, 8, 15, 17) + ((2, 9, 16, 23, 24, 31, 32) if th else ())
    deep = {'vector<vector<int*>>', 'map<string,vector<char*>>', 'shared<class>', 'vector<class*>', 'smart class'}

    def job(n):
        types = sets[n]
        docs = generate(rep, {t: x for t, x in types.items() if t in POINTERS}, strs(lens), 2, True, True) if n == 'pointers' else {}
        if n != 'pointers':
            wide = {t: x for t, x in types.items() if t not in deep}
            docs = generate(rep, wide, strs((0, 8) if not th else (0, 1, 7, 8, 17)), 2, True, True)
            docs.update(generate(rep, {t: x for t, x in types.items() if t in deep}, strs((8,))[:1], 2, th, True))
        replay(rep, by[n], docs, n, SEED, 20000 if th else 300, 200 if th else 12)
    parallel([(lambda n=n: job(n)) for n in sets], 3)
    rep.assumptions += ['what containers and strings allocate by themselves is not followed: the ledger is of pointer targets and character arrays',
                        'pointers are null or point to storage of the caller before the call']
