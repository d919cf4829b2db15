"""Shared machinery: scratch directories, harness building and running, TLC runs, reporting."""
import os, sys, json, hashlib, subprocess, shutil, time, tempfile, random, re, struct, signal, threading
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
BUILD = os.path.join(VERIF, '.build')
SPEC = os.path.join(VERIF, 'spec')
HARN = os.path.join(VERIF, 'harness')
EVID = os.path.join(VERIF, 'evidence')
NPROC = os.cpu_count() or 4
SEED = int(os.environ.get('VERIF_SEED', '1') or '1')


class CheckError(Exception):
    """the check itself failed (model failure, build of the harness against an intact library, ...)"""


def log(*a):
    print('[%7.1fs]' % (time.time() - T0), *a, file=sys.stderr, flush=True)


T0 = time.time()

# ------------------------------------------------------------------ building


def _tree_hash(paths):
    h = hashlib.sha256()
    for root in paths:
        if os.path.isfile(root):
            h.update(root.encode() + b'\0' + open(root, 'rb').read())
            continue
        for d, ds, fs in os.walk(root):
            ds.sort()
            for f in sorted(fs):
                p = os.path.join(d, f)
                h.update(p.encode() + b'\0')
                with open(p, 'rb') as fh:
                    h.update(fh.read())
    return h.hexdigest()


_src_hash = None


def src_hash():
    global _src_hash
    if _src_hash is None:
        _src_hash = _tree_hash([os.path.join(REPO, 'src')])
    return _src_hash


ASAN = ['-fsanitize=address,undefined', '-fno-sanitize-recover=undefined', '-fno-sanitize=alignment',
        '-fno-omit-frame-pointer']


def build(source, std='20', defs=(), san=True, opt='-O1', extra=(), name=None):
    """compile harness/<source>.cpp against the library's working tree; cached on content"""
    src = os.path.join(HARN, source + '.cpp')
    cmd = ['g++', '-std=c++' + std, opt, '-w', '-DNDEBUG', '-I' + os.path.join(REPO, 'src'), '-I' + HARN]
    if san:
        cmd += ['-g1'] + ASAN
    cmd += ['-D' + d for d in defs] + list(extra)
    hdrs = [os.path.join(HARN, f) for f in sorted(os.listdir(HARN)) if f.endswith('.hpp')]
    key = hashlib.sha256((src_hash() + _tree_hash([src] + hdrs) + ' '.join(cmd)).encode()).hexdigest()[:20]
    os.makedirs(BUILD, exist_ok=True)
    out = os.path.join(BUILD, '%s-%s-%s' % (name or source, std, key))
    if os.path.exists(out):
        return out
    tmp = out + '.%d.tmp' % os.getpid()
    t = time.time()
    r = subprocess.run(cmd + [src, '-o', tmp, '-pthread'], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if r.returncode:
        raise CheckError('cannot build harness %s (c++%s):\n%s' % (source, std, r.stdout.decode(errors='replace')[:4000]))
    os.rename(tmp, out)
    log('built %s c++%s %s in %.1fs' % (source, std, ' '.join(defs), time.time() - t))
    return out


def build_many(specs):
    """specs: list of dicts of build() arguments; built in parallel"""
    with ThreadPoolExecutor(NPROC) as ex:
        return list(ex.map(lambda s: build(**s), specs))


def prune_build(keep_days=2):
    now = time.time()
    if os.path.isdir(BUILD):
        for f in os.listdir(BUILD):
            p = os.path.join(BUILD, f)
            if now - os.path.getmtime(p) > keep_days * 86400:
                os.unlink(p)

# ------------------------------------------------------------------ running harnesses


HENV = dict(os.environ, ASAN_OPTIONS='detect_leaks=0:abort_on_error=0:allocator_may_return_null=0:max_allocation_size_mb=2048:detect_stack_use_after_return=0:symbolize=0:exitcode=99',
            UBSAN_OPTIONS='print_stacktrace=0:halt_on_error=1:symbolize=0:exitcode=99')


def _run_shard(binary, lines, crash_limit, timeout):
    """lines: list of 'op\\targs'.  Returns list of results aligned with lines."""
    res = [None] * len(lines)
    start, crashes = 0, 0
    while start < len(lines):
        data = ''.join('%d\t%s\n' % (i, lines[i]) for i in range(start, len(lines))).encode()
        try:
            p = subprocess.run([binary], input=data, stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=HENV, timeout=timeout)
            out, err, rc = p.stdout, p.stderr, p.returncode
        except subprocess.TimeoutExpired as e:
            out, err, rc = e.stdout or b'', b'', -99
        last = start - 1
        for l in out.decode('latin-1').split('\n'):
            if '\t' in l:
                i, v = l.split('\t', 1)
                if i.isdigit() and start <= int(i) < len(lines):
                    res[int(i)] = v
                    last = max(last, int(i))
        if last == len(lines) - 1 and rc == 0:
            break
        # the first case without an answer is the one that brought the process down
        bad = last + 1
        if bad >= len(lines):
            raise CheckError('harness %s ended with %d after its last case: %s' % (binary, rc, err.decode(errors='replace')[:500]))
        e = err.decode(errors='replace')
        m = re.search(r'(ERROR: AddressSanitizer:? [^\n]*|runtime error: [^\n]*|terminate called[^\n]*\n?[^\n]*|VH-HANG)', e)
        why = m.group(1).strip() if m else ('signal %d' % -rc if rc < 0 else 'exit %d %s' % (rc, e[:200]))
        why = re.sub(r'0x[0-9a-f]+', '0x..', why)
        res[bad] = 'CRASH ' + why.replace('\n', ' ').replace('\t', ' ')
        crashes += 1
        start = bad + 1
        if crashes >= crash_limit:
            for i in range(start, len(lines)):
                if res[i] is None:
                    res[i] = 'SKIPPED'
            break
    return res


def run_cases(binary, lines, crash_limit=3, timeout=600, shards=None):
    """run all case lines, sharded over the processors; results in order"""
    if not lines:
        return []
    n = shards or min(NPROC, max(1, len(lines) // 200))
    size = (len(lines) + n - 1) // n
    parts = [lines[i:i + size] for i in range(0, len(lines), size)]
    with ThreadPoolExecutor(n) as ex:
        out = list(ex.map(lambda p: _run_shard(binary, p, crash_limit, timeout), parts))
    return [r for p in out for r in p]


def hexs(bs):
    return bytes(bs).hex() or '-'

# ------------------------------------------------------------------ TLC


TLA_JAR = '/opt/veriftools/tla/tla2tools.jar'


LOCK = threading.RLock()


def parallel(jobs, n=4):
    """run the jobs (functions without arguments) side by side; the first failure is raised"""
    with ThreadPoolExecutor(n) as ex:
        return [f.result() for f in [ex.submit(j) for j in jobs]]


class TlcStats:
    def __init__(self):
        self.states = 0
        self.generated = 0
        self.runs = 0

    def add(self, gen, dist):
        with LOCK:
            self.generated += gen
            self.states += dist
            self.runs += 1


def tla(v):
    """Python value -> TLA+ expression"""
    if isinstance(v, bool):
        return 'TRUE' if v else 'FALSE'
    if isinstance(v, int):
        return str(v) if v >= 0 else '(%d)' % v
    if isinstance(v, str):
        return '"' + v.replace('\\', '\\\\').replace('"', '\\"') + '"'
    if isinstance(v, (bytes, bytearray)):
        return '<<' + ','.join(str(b) for b in v) + '>>'
    if isinstance(v, (list, tuple)):
        return '<<' + ','.join(tla(x) for x in v) + '>>'
    if isinstance(v, (set, frozenset)):
        return '{' + ','.join(tla(x) for x in sorted(v, key=repr)) + '}'
    if isinstance(v, dict):
        return '[' + ', '.join('%s |-> %s' % (k, tla(x)) for k, x in v.items()) + ']'
    raise TypeError(v)


def tlc(module, consts, invariants=(), properties=(), files=None, stats=None, timeout=800, simulate=None, depth=None,
        constraint=None, init_next=None, postcondition=None, seed=None, workers=None, view=None, heap='6g', raw=False):
    """Run TLC on spec/<module>.tla with the given constants.  Returns the list of decoded printed tuples.
    Raises CheckError when TLC reports anything but success (a model failure)."""
    work = tempfile.mkdtemp(prefix='vtlc-')
    try:
        for f in os.listdir(SPEC):
            if f.endswith('.tla'):
                shutil.copy(os.path.join(SPEC, f), work)
        for name, content in (files or {}).items():
            with open(os.path.join(work, name), 'w') as fh:
                fh.write(content)
        with open(os.path.join(work, 'MC.tla'), 'w') as fh:
            fh.write('---- MODULE MC ----\nEXTENDS %s\n' % module)
            for k, v in consts.items():
                fh.write('M_%s == %s\n' % (k, v[1:] if isinstance(v, str) and v.startswith('=') else tla(v)))
            fh.write('====\n')
        with open(os.path.join(work, 'MC.cfg'), 'w') as fh:
            if init_next:
                fh.write('INIT %s\nNEXT %s\n' % init_next)
            else:
                fh.write('SPECIFICATION Spec\n')
            for k in consts:
                fh.write('CONSTANT %s <- M_%s\n' % (k, k))
            for i in invariants:
                fh.write('INVARIANT %s\n' % i)
            for i in properties:
                fh.write('PROPERTY %s\n' % i)
            if constraint:
                fh.write('CONSTRAINT %s\n' % constraint)
            if view:
                fh.write('VIEW %s\n' % view)
            if postcondition:
                fh.write('POSTCONDITION %s\n' % postcondition)
            fh.write('CHECK_DEADLOCK FALSE\n')
        cmd = ['java', '-Xmx' + heap, '-Xss64m', '-XX:+UseParallelGC', '-Djava.io.tmpdir=' + work, '-cp', _classpath(), 'tlc2.TLC',
               '-workers', str(workers or NPROC), '-metadir', os.path.join(work, 'md'), '-config', 'MC.cfg', '-noGenerateSpecTE']
        if simulate:
            cmd += ['-simulate', 'num=%d' % simulate, '-seed', str(seed if seed is not None else SEED)]
        if depth:
            cmd += ['-depth', str(depth)]
        cmd += ['MC.tla']
        outp = os.path.join(work, 'out.txt')
        with open(outp, 'wb') as fh:
            try:
                rc = subprocess.run(cmd, cwd=work, stdout=fh, stderr=subprocess.STDOUT, timeout=timeout).returncode
            except subprocess.TimeoutExpired:
                raise CheckError('TLC timed out on %s' % module)
        printed, other = [], []
        gen = dist = 0
        with open(outp, encoding='utf-8', errors='replace') as fh:
            for l in fh:
                if l.startswith('"'):
                    printed.append(l)
                else:
                    other.append(l)
                    m = re.match(r'(\d+) states generated, (\d+) distinct states found', l)
                    if m:
                        gen, dist = int(m.group(1)), int(m.group(2))
                    m = re.match(r'The number of states generated: (\d+)', l)
                    if m:
                        gen = dist = int(m.group(1))
        if rc != 0:
            raise CheckError('TLC failed (%d) on %s:\n%s' % (rc, module, ''.join(x for x in other if 'Parsing' not in x and 'Semantic processing' not in x)[-3000:]))
        if stats is not None:
            stats.add(gen, dist)
        log('TLC %s: %d states, %d printed' % (module, dist, len(printed)))
        if raw:
            return printed
        return [json.loads(json.loads(l)) for l in printed]
    finally:
        shutil.rmtree(work, ignore_errors=True)


def _classpath():
    return TLA_JAR + ':/opt/veriftools/tla/CommunityModules-deps.jar'

# ------------------------------------------------------------------ reporting


class Report:
    def __init__(self, prop, tier):
        self.prop, self.tier = prop, tier
        self.stats = TlcStats()
        self.traces = 0
        self.viol = []          # (signature, description, replay dict)
        self.samples = []
        self.parts = {}
        self.assumptions = []
        self.known = [k for k in load_known() if k.get('property') == prop and k.get('status') == 'finding']
        self.known_hit = {}
        for d in (os.path.join(EVID, 'replay', '%s-%s.json' % (prop, tier)), os.path.join(EVID, prop + '.json')):
            if os.path.exists(d):
                os.unlink(d)

    def part(self, name, **kw):
        with LOCK:
          d = self.parts.setdefault(name, {})
          for k, v in kw.items():
            d[k] = d.get(k, 0) + v if isinstance(v, int) and not isinstance(v, bool) else v

    def sample(self, s, limit=12):
        if len(self.samples) < limit:
            self.samples.append(s)

    def violation(self, sig, what, replay):
        """sig: identifies the specific failing input/site; replay: JSON-able"""
        for k in self.known:
            if re.fullmatch(k['match'], sig):
                self.known_hit.setdefault(k['id'], (k, sig))
                return
        self.viol.append((sig, what, replay))

    def finish(self):
        os.makedirs(EVID, exist_ok=True)
        wall = time.time() - T0
        ev = {'property': self.prop, 'tier': self.tier, 'seed': SEED, 'level': 'model_checking',
              'coverage': {'states': self.stats.states, 'transitions': self.stats.generated,
                           'traces_validated_against_impl': self.traces, 'samples': self.samples,
                           'tlc_runs': self.stats.runs, 'parts': self.parts},
              'assumptions': self.assumptions, 'wall_s': round(wall, 1), 'violations': len(self.viol)}
        with open(os.path.join(EVID, self.prop + '.json'), 'w') as fh:
            json.dump(ev, fh, indent=1, default=_js)
            fh.write('\n')
        for k, sig in self.known_hit.values():
            print('KNOWN-FINDING: property=%s %s' % (self.prop, k['what']))
        if self.viol:
            d = os.path.join(EVID, 'replay')
            os.makedirs(d, exist_ok=True)
            p = os.path.join(d, '%s-%s.json' % (self.prop, self.tier))
            with open(p, 'w') as fh:
                json.dump({'property': self.prop, 'violations': [
                    {'signature': s, 'what': w, 'replay': r} for s, w, r in spread(self.viol, 5, 100)], 'total': len(self.viol)}, fh, indent=1, default=_js)
            for s, w, r in spread(self.viol, 2, 12):
                print('  %s: %s' % (s, w))
            print('  (%d in total)' % len(self.viol))
            print('VIOLATION property=%s replay=%s' % (self.prop, os.path.relpath(p, VERIF)))
            return 1
        print('OK property=%s tier=%s states=%d traces=%d wall=%.1fs' % (self.prop, self.tier, self.stats.states, self.traces, wall))
        return 0


def spread(viol, each, most):
    """a few of every kind (signature without its last part)"""
    n, out = {}, []
    for v in viol:
        k = v[0].rsplit(':', 1)[0]
        n[k] = n.get(k, 0) + 1
        if n[k] <= each:
            out.append(v)
    return out[:most]


def load_known():
    p = os.path.join(VERIF, 'known_findings.json')
    return json.load(open(p))['entries'] if os.path.exists(p) else []


def _js(o):
    return sorted(o) if isinstance(o, (set, frozenset)) else o.hex() if isinstance(o, bytes) else str(o)


def dbits(x):
    return struct.pack('>d', x).hex()


def fbits(x):
    return struct.pack('>f', x).hex()
