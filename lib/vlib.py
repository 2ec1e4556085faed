"""Shared machinery: builds from /repo's working tree, fork-server client, evidence, violations, known findings."""
import os, sys, struct, subprocess, json, time, shutil, hashlib, multiprocessing, signal, traceback, tempfile, atexit

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
SRC = REPO + '/src'
HPX = REPO + '/HealpixC'
TIER = os.environ.get('VERIF_TIER', 'quick')
SEED = int(os.environ.get('VERIF_SEED', '1') or 1)
NPROC = int(os.environ.get('VERIF_NPROC', '8'))
THOROUGH = TIER == 'thorough'

LIBSRC = ['sgp', 'sgp4', 'sgp8', 'sdp4', 'sdp8', 'deep', 'basics', 'get_el', 'common', 'observe', 'date2mjd_nf',
          'mjd2date', 'skysep_h', 'lmst_hr', 'dechalat2alt', 'lpsun_radec', 'earthtilt', 'zenith_site_ra']
MAINS = {'sat_skymap', 'sat_visibility', 'mjdnow', 'dynamic'}


def lib_sources():
    """Library sources: LIBOBJS of the project's Makefile when readable (so an added file is picked up)."""
    import re
    try:
        mk = open(SRC + '/Makefile').read().replace('\\\n', ' ')
        m = re.search(r'^LIBOBJS\s*=\s*(.*)$', mk, re.M)
        names = [w[:-2] for w in m.group(1).split() if w.endswith('.o')]
        if names and all(os.path.exists(f'{SRC}/{n}.c') for n in names):
            return names
    except Exception:
        pass
    return LIBSRC


class Build:
    """Scratch build directory under /verif/build, removed at exit."""

    def __init__(self, name):
        base = os.environ.get('VERIF_BUILD', VERIF + '/build')
        os.makedirs(base, exist_ok=True)
        self.dir = tempfile.mkdtemp(prefix=name + '.', dir=base)
        self.pid = os.getpid()
        atexit.register(self.clean)

    def clean(self):
        if os.getpid() == self.pid and not os.environ.get('VERIF_KEEP'):
            shutil.rmtree(self.dir, ignore_errors=True)

    def run(self, cmd):
        r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, cwd=self.dir)
        if r.returncode:
            sys.stderr.write(' '.join(cmd) + '\n' + r.stdout.decode(errors='replace'))
            raise SystemExit(3)
        return r

    def par(self, cmds):
        ps = [(c, subprocess.Popen(c, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, cwd=self.dir)) for c in cmds]
        for c, p in ps:
            o, _ = p.communicate()
            if p.returncode:
                sys.stderr.write(' '.join(c) + '\n' + o.decode(errors='replace'))
                raise SystemExit(3)

    FLAGS = {
        'plain': ['gcc', '-g', '-O2', '-w'],
        'o3': ['gcc', '-g', '-O3', '-w'],
        'asan': ['gcc', '-g', '-O1', '-w', '-fsanitize=address,undefined', '-fno-sanitize-recover=all',
                 '-fno-omit-frame-pointer', '-fsanitize=float-cast-overflow'],
        'msan': ['clang', '-g', '-O1', '-w', '-fsanitize=memory', '-fno-omit-frame-pointer',
                 '-fno-sanitize-recover=all'],
    }

    def objs(self, files, variant='plain', extra=(), tag=''):
        """Compile files [(path, [flags])] in parallel; returns objects."""
        cmds, out = [], []
        for i, f in enumerate(files):
            fl = []
            if isinstance(f, tuple):
                f, fl = f
            o = f'{self.dir}/{variant}{tag}_{os.path.basename(f)[:-2]}_{i}.o'
            out.append(o)
            cmds.append(self.FLAGS[variant] + ['-U_FORTIFY_SOURCE', '-D_FORTIFY_SOURCE=0', '-I' + SRC, '-I' + HPX,
                                               '-I' + VERIF + '/harness'] + list(extra) + fl + ['-c', f, '-o', o])
        self.par(cmds)
        return out

    def lib(self, variant='plain', extra=()):
        key = '_lib_' + variant + '_'.join(extra).replace('/', '')
        if not hasattr(self, key):
            setattr(self, key, self.objs([f'{SRC}/{n}.c' for n in lib_sources()] + [HPX + '/chealpix.c'], variant, extra, 'L'))
        return getattr(self, key)

    def harness(self, csrc, variant='plain', extra=(), libs=(), link=()):
        """Link /verif/harness/<csrc>.c with the library."""
        o = self.objs([f'{VERIF}/harness/{csrc}.c'], variant, extra, 'H' + csrc)
        exe = f'{self.dir}/{csrc}.{variant}'
        self.run([self.FLAGS[variant][0]] + [f for f in self.FLAGS[variant][1:] if f.startswith('-fsan') or f == '-g'] +
                 list(link) + o + self.lib(variant) + ['-o', exe, '-lm'] + list(libs))
        return exe

    WRAPS = ['fopen', 'fgets', 'malloc', 'realloc', 'calloc', 'SGP', 'SGP4', 'SGP8', 'SDP4', 'SDP8']

    def server(self, prog, variant='plain'):
        objs = self.objs([(f'{SRC}/{prog}.c', ['-Dmain=prog_main']), VERIF + '/harness/srv.c'], variant, (), prog)
        exe = f'{self.dir}/srv_{prog}.{variant}'
        self.run([self.FLAGS[variant][0]] + [f for f in self.FLAGS[variant][1:] if f.startswith('-fsan') or f == '-g'] +
                 objs + self.lib(variant) + ['-Wl,' + ','.join('--wrap=' + w for w in self.WRAPS), '-o', exe, '-lm'])
        return exe

    def program(self, prog):
        """The program itself, as its own executable."""
        exe = f'{self.dir}/{prog}'
        self.run(['gcc', '-g'] + self.objs([f'{SRC}/{prog}.c'], 'plain', (), 'P' + prog) + self.lib() + ['-o', exe, '-lm'])
        return exe

    def scratch(self, name):
        d = f'{self.dir}/w_{name}'
        os.makedirs(d, exist_ok=True)
        return d


K_FOPEN, K_FGETS, K_MALLOC, K_REALLOC, K_CALLOC, K_FREAD, K_GETC, K_PROP = range(8)
SAN_ENV = {'ASAN_OPTIONS': 'detect_leaks=0:abort_on_error=0:exitcode=77:allocator_may_return_null=1:detect_stack_use_after_return=0',
           'UBSAN_OPTIONS': 'print_stacktrace=1:exitcode=77:halt_on_error=1', 'MSAN_OPTIONS': 'exitcode=77'}


class Res:
    __slots__ = ('status', 'out', 'err', 'cnt', 'rc', 'sig', 'argv')

    @property
    def timeout(self):
        return self.sig == signal.SIGALRM

    def json(self):
        return parse_json(self.out)


def _reject(x):
    raise ValueError('non-finite number ' + x)


def _nodup(pairs):
    d = {}
    for k, v in pairs:
        if k in d:
            raise ValueError('duplicate key ' + k)
        d[k] = v
    return d


def parse_json(b):
    """Strict JSON: one document, no NaN/Infinity, no duplicate keys."""
    if isinstance(b, bytes):
        b = b.decode('utf-8', errors='strict')
    return json.loads(b, parse_constant=_reject, object_pairs_hook=_nodup)


class TooManyHangs(Exception):
    pass


HANGS = multiprocessing.Value('i', 0)
HANG_LIMIT = 12
HANG_TEXT = multiprocessing.Array('c', 1200)


def hang(what):
    """Count an execution that does not end; the exploration stops when there are many of them."""
    with HANGS.get_lock():
        HANGS.value += 1
        n = HANGS.value
        HANG_TEXT.value = what.encode('latin-1', 'replace')[:1100]
    if n >= HANG_LIMIT:
        raise TooManyHangs(what)


def hang_guard():
    if HANGS.value >= HANG_LIMIT:
        raise TooManyHangs('the same')


class Srv:
    """Client of one fork server process. Files live in self.dir, the server's cwd."""

    def __init__(self, exe, d):
        self.exe, self.dir = exe, d
        os.makedirs(d, exist_ok=True)
        self._files = {}
        self.start()
        self.n = 0

    def start(self):
        env = dict(os.environ, LC_ALL='C', TZ='America/New_York', MALLOC_PERTURB_='165', **SAN_ENV)      # the answer depends on neither
        self.p = subprocess.Popen([self.exe], stdin=subprocess.PIPE, stdout=subprocess.PIPE, cwd=self.dir, env=env)

    def files(self, fs):
        """Make the scratch directory contain exactly fs (name -> bytes/str)."""
        if fs is self._files:
            return
        for n in list(self._files):
            if n not in fs:
                os.unlink(f'{self.dir}/{n}')
        for n, c in fs.items():
            if self._files.get(n) == c:
                continue
            p = f'{self.dir}/{n}'
            if '/' in n:
                os.makedirs(os.path.dirname(p), exist_ok=True)
            with open(p, 'wb') as f:
                f.write(c if isinstance(c, bytes) else c.encode('latin-1'))
        self._files = dict(fs)

    def run(self, argv, files=None, stubs=(), faults=(), timeout=10.0, confirm=True):
        """argv without program name. stubs: [(norad, ret, [(jd,x,y,z),...])]. faults: [(kind, index, mode)].
        A run that exceeds its time limit is repeated with three times the limit before it counts."""
        hang_guard()
        r = self.run1(argv, files, stubs, faults, timeout)
        if r.timeout and confirm:
            r = self.run1(argv, files, stubs, faults, timeout * 3)
            if r.timeout:
                hang('%s %s' % (os.path.basename(self.exe).split('.')[0][4:], ' '.join(map(repr, argv))[:1000]))
        return r

    def run1(self, argv, files, stubs, faults, timeout):
        if files is not None:
            self.files(files)
        b = [struct.pack('<I', len(argv) + 1)]
        for a in ['prog'] + list(argv):
            a = a.encode('latin-1') if isinstance(a, str) else a
            b.append(struct.pack('<I', len(a)))
            b.append(a)
        b.append(struct.pack('<II', int(timeout * 1000), len(faults)))
        for f in faults:
            b.append(struct.pack('<III', *f))
        b.append(struct.pack('<I', len(stubs)))
        for nor, ret, knots in stubs:
            b.append(struct.pack('<iiI', nor, ret, len(knots)))
            for k in knots:
                b.append(struct.pack('<4d', *k))
        b = b''.join(b)
        self.p.stdin.write(struct.pack('<I', len(b)) + b)
        self.p.stdin.flush()
        o = self.p.stdout
        r = Res()
        r.argv = argv
        r.status, n = struct.unpack('<II', o.read(8))
        r.out = o.read(n)
        n, = struct.unpack('<I', o.read(4))
        r.err = o.read(n)
        n, = struct.unpack('<I', o.read(4))
        r.cnt = struct.unpack('<%dI' % n, o.read(4 * n))
        r.sig = r.status & 0x7f
        r.rc = (r.status >> 8) & 0xff if r.sig == 0 else None
        self.n += 1
        return r

    def close(self):
        try:
            self.p.stdin.close()
            self.p.wait(5)
        except Exception:
            self.p.kill()


# ---------------------------------------------------------------- parallel map
def pmap(fn, items, nproc=None, chunk=1, init=None):
    """fn(item) in forked workers, results in order. fn may use worker-local globals set by init(worker_index)."""
    items = list(items)
    nproc = min(nproc or NPROC, max(1, len(items)))
    ctr = multiprocessing.Value('i', 0)

    def _init():
        signal.signal(signal.SIGINT, signal.SIG_IGN)
        with ctr.get_lock():
            w = ctr.value
            ctr.value += 1
        if init:
            init(w)
    if nproc == 1:
        if init:
            init(0)
        return [fn(i) for i in items]
    ctx = multiprocessing.get_context('fork')
    with ctx.Pool(nproc, _init) as p:
        return p.map(fn, items, chunk)


# ---------------------------------------------------------------- in-process harnesses, run in slices
def run_slices(c, exe, n=None, args=(), timeout=3000 if THOROUGH else 240, env=None, tag=''):
    """Run exe <slice> <n> <thorough> args... for every slice; collect violations (replayed once), counters and samples.
    Returns (counters, samples). A slice that crashes or hangs is a violation too (after a lone re-run)."""
    n = n or NPROC
    pid = c.pid

    def one(i, tmo):
        try:
            r = subprocess.run([exe, str(i), str(n), str(int(THOROUGH))] + [str(a) for a in args], stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                               timeout=tmo, env=dict(os.environ, LC_ALL='C', TZ='America/New_York', MALLOC_PERTURB_='165', **SAN_ENV, **(env or {})), cwd=c.build.dir)
            return r.returncode, r.stdout.decode('latin-1'), r.stderr.decode('latin-1')[-1500:]
        except subprocess.TimeoutExpired as e:
            return None, (e.stdout or b'').decode('latin-1'), 'time-out'
    from concurrent.futures import ThreadPoolExecutor
    late = []

    def first(i):
        if late:                    # another slice did not end: decided below
            return 'skipped', '', ''
        r = one(i, timeout)
        if r[0] is None:
            late.append(i)
        return r
    with ThreadPoolExecutor(min(n, NPROC)) as ex:
        res = list(ex.map(first, range(n)))
        if late:
            r = one(late[0], timeout)
            if r[0] is None:
                c.violation('%s:%shang' % (pid, tag), 'harness slice %d of %d does not end within %d s' % (late[0], n, timeout), {'cmd': [exe, late[0], n], 'out': r[1][-500:]})
                return {}, []
            redo = [i for i in range(n) if res[i][0] in (None, 'skipped')]
            for i, r in zip(redo, ex.map(lambda i: one(i, timeout * 4), redo)):
                res[i] = r
    cnt, samples = {}, []
    for i, (rc, out, err) in enumerate(res):
        vs = [l for l in out.splitlines() if l.startswith('V ')]
        if rc != 0 or vs:
            rc2, out2, err2 = one(i, timeout * 2)
            if rc != 0 and rc2 != 0:
                c.violation('%s:%scrash' % (pid, tag), 'harness slice %d: exit %r %s' % (i, rc2, err2), {'cmd': [exe, i, n], 'rc': rc2, 'out': out2[-500:], 'err': err2})
            again = {l for l in out2.splitlines() if l.startswith('V ')}
            for l in vs:
                if l in again:
                    k, _, t = l[2:].partition('\t')
                    c.violation('%s:%s%s' % (pid, tag, k), t, {'cmd': [os.path.basename(exe), i, n, int(THOROUGH)] + [str(a) for a in args]})
            out = out2 if rc != 0 else out
        for l in out.splitlines():
            if l.startswith('C '):
                _, k, v = l.split()
                cnt[k] = cnt.get(k, 0) + int(v)
            elif l.startswith('S ') and len(samples) < 12:
                samples.append(l[2:])
    return cnt, samples


# ---------------------------------------------------------------- check runner
class Check:
    def __init__(self, pid, level):
        self.pid, self.level = pid, level
        self.t0 = time.time()
        self.viol = []          # (key, text, replay dict)
        self.cov = {}
        self.assump = []
        self.build = Build(pid)
        self.known = [k for k in load_known() if k['property'] == pid and k['kind'] == 'known']

    def violation(self, key, text, replay=None):
        """key: stable identifier of the failing input / call site / history."""
        self.viol.append((key, text, replay or {}))

    def finish(self):
        new, hits = [], {}
        for key, text, rep in self.viol:
            k = next((k for k in self.known if match_known(k, key)), None)
            if k:
                hits.setdefault(k['id'], 0)
                hits[k['id']] += 1
            else:
                new.append((key, text, rep))
        for k in self.known:
            print(f"KNOWN-FINDING: property={self.pid} {k['text']}" + (f" [{hits[k['id']]} cases]" if k['id'] in hits else ' [not met in this run]'))
        path = None
        if new:
            os.makedirs(VERIF + '/replays', exist_ok=True)
            path = f'{VERIF}/replays/{self.pid}.json'
            with open(path, 'w') as f:
                json.dump([{'key': k, 'what': t, 'replay': r} for k, t, r in new[:50]], f, indent=1, default=repr)
        ev = {'property': self.pid, 'tier': TIER if TIER in ('quick', 'thorough') else 'quick', 'seed': SEED, 'level': self.level,
              'coverage': self.cov, 'assumptions': self.assump, 'wall_s': round(time.time() - self.t0, 2), 'violations': len(new)}
        os.makedirs(VERIF + '/evidence', exist_ok=True)
        with open(f'{VERIF}/evidence/{self.pid}.json', 'w') as f:
            json.dump(ev, f, indent=1, default=repr)
        for key, text, rep in new[:10]:
            print(f'  {key}: {text}')
        if new:
            print(f'{len(new)} violating executions')
            print(f'VIOLATION property={self.pid} replay={path}')
            sys.stdout.flush()
            return 1
        print(f'{self.pid}: held; ' + ', '.join(f'{k}={v}' for k, v in self.cov.items() if isinstance(v, (int, float, bool))) + f', wall {ev["wall_s"]} s')
        return 0


KNOWN_FILE = VERIF + '/known_findings.json'


def load_known():
    try:
        return json.load(open(KNOWN_FILE))
    except FileNotFoundError:
        return []


def match_known(k, key):
    import re
    return k.get('kind') == 'known' and re.fullmatch(k['match'], key) is not None


def main(pid, level, fn):
    c = Check(pid, level)
    try:
        fn(c)
    except TooManyHangs as e:
        c.violation('%s:hang' % pid, '%d executions do not end within the time limit, e.g. %s' % (HANGS.value, HANG_TEXT.value.decode('latin-1')), {'run': HANG_TEXT.value.decode('latin-1')})
    sys.exit(c.finish())


# ---------------------------------------------------------------- TLE generator
def checksum(s):
    return sum(int(ch) if ch.isdigit() else (1 if ch == '-' else 0) for ch in s[:68]) % 10


def tle(norad='00001', intl='98067A  ', epoch='20013.50000000', incl=51.6, node=10.0, ecc=0.001, argp=20.0, ma=30.0, n=15.5,
        ndot=' .00000000', nddot=' 00000-0', bstar=' 00000-0', etype='0', bull=' 999', rev='    1', cls='U'):
    """Two well-formed lines (69 columns)."""
    if isinstance(norad, int):
        norad = '%05d' % norad
    l1 = '1 %s%s %-8s %s %s %s %s %s %s' % (norad, cls, intl, epoch, ndot, nddot, bstar, etype, bull)
    l2 = '2 %s %8.4f %8.4f %07d %8.4f %8.4f %11.8f%s' % (norad, incl, node, round(ecc * 1e7), argp, ma, n, rev)
    assert len(l1) == 68 and len(l2) == 68, (l1, l2, len(l1), len(l2))
    return l1 + str(checksum(l1)), l2 + str(checksum(l2))
