#!/usr/bin/env python3
"""C19: the real tle_retrieve.sh under an enumerated set of download faults.

The script of /repo is copied with its absolute paths (/tmp, /usr/local) mapped below a scratch directory, and run as an
unprivileged user with a stand-in curl that answers from a plan. For every plan the final content of every file is compared
with the list model: each target has the content of the last download of it that succeeded, otherwise what it had before."""
import sys, os, re, subprocess, itertools, shutil, time, signal
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
from vlib import *

KINDS = ['http404', 'http500', 'http403', 'noconn', 'nodns', 'connto', 'bodyto', 'headto', 'partial', 'reset', 'diskfull', 'empty', 'emptynf', 'redir']
KILL = ['kill', 'killend']
UID = 65534


def target(url):
    """Documented file name of a download."""
    name = url.rsplit('=', 1)[1]
    if 'supplemental' in url:
        name = {'iridium': 'iridium-NEXT', 'gps': 'gps-ops'}.get(name, name)
    return name + '.txt'


def body(url, run):
    n = ["ISS (ZARYA)", "HST", "CXO", "CHEOPS", "TESS", "OBJECT A", "OBJECT B"]
    s = ''.join('%-24s\r\n1 %05dU run %s of %s\r\n2 %05d run %s of %s\r\n' % (m, i + 1, run, url, i + 1, run, url) for i, m in enumerate(n))
    return s + '%-24s\r\n1 99999 end of %s run %s\r\n2 99999 end\r\n' % ('LAST', url, run)


def demote():
    os.setsid()
    os.environ['STUB_KILL'] = str(os.getpid())
    if os.getuid() == 0:
        try:
            os.setgroups([])
            os.setgid(UID)
            os.setuid(UID)
        except OSError:
            pass


class World:
    """One scratch root: repository directory, mapped /tmp and /usr/local."""

    def __init__(self, b, i):
        # the scratch root must be reachable by the unprivileged user
        self.root = tempfile.mkdtemp(prefix='w%d.' % i, dir=ROOT)
        os.chmod(self.root, 0o755)
        self.stub = b.curl
        self.names = 'cwd tmp usrlocal usrlocal/bin usrlocal/TLErepo bin home'.split()
        os.mkdir(self.root + '/bin')
        for n in ('curl', 'wget'):
            shutil.copy(self.stub, f'{self.root}/bin/{n}')
            os.chmod(f'{self.root}/bin/{n}', 0o755)
        s = open(REPO + '/scripts/tle_retrieve.sh').read()
        self.script = f'{self.root}/tle_retrieve.sh'
        open(self.script, 'w').write(self.map(s))
        os.chmod(self.script, 0o755)

    def map(self, s):
        return re.sub(r'/usr/local\b', self.root + '/usrlocal', re.sub(r'(?<![\w.])/tmp\b', self.root + '/tmp', s))

    def fresh(self, files, where='repo'):
        for d in ('cwd', 'tmp', 'usrlocal', 'home', 'repo', 'my repo'):
            shutil.rmtree(f'{self.root}/{d}', ignore_errors=True)
        for d in ('cwd', 'tmp', 'usrlocal', 'usrlocal/bin', 'usrlocal/TLErepo', 'home', where):
            os.makedirs(f'{self.root}/{d}', exist_ok=True)
            os.chmod(f'{self.root}/{d}', 0o777)
            if os.getuid() == 0:
                os.chown(f'{self.root}/{d}', UID, UID)
        for n, t in files.items():
            with open(f'{self.root}/{where}/{n}', 'w', newline='') as f:
                f.write(t)
            os.chmod(f'{self.root}/{where}/{n}', 0o666)
            if os.getuid() == 0:
                os.chown(f'{self.root}/{where}/{n}', UID, UID)

    def snap(self):
        r = {}
        for d, _, fs in os.walk(self.root):
            for n in fs:
                p = os.path.join(d, n)
                q = os.path.relpath(p, self.root)
                if q.startswith('bin/') or q in ('tle_retrieve.sh', 'plan', 'log'):
                    continue
                with open(p, newline='', errors='replace') as f:
                    r[q] = f.read()
        return r

    def run(self, plan, run, args, cwd='cwd'):
        with open(self.root + '/plan', 'w') as f:
            f.writelines('%s %s\n' % (k, u) for u, k in plan)
        with open(self.root + '/log', 'w'):
            pass
        os.chmod(self.root + '/log', 0o666)
        env = {'PATH': self.root + '/bin:/usr/bin:/bin', 'HOME': self.root + '/home', 'TMPDIR': self.root + '/tmp', 'LC_ALL': 'C', 'TZ': 'UTC',
               'STUB_PLAN': self.root + '/plan', 'STUB_LOG': self.root + '/log', 'STUB_RUN': run}
        # STUB_KILL = process group that the stub may kill: set by the wrapper shell, which becomes the script itself
        p = subprocess.Popen(['/bin/bash', '-c', 'STUB_KILL=$$ exec /bin/bash "$0" "$@"', self.script] + args, cwd=f'{self.root}/{cwd}', env=env,
                             stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, preexec_fn=demote)
        try:
            rc = p.wait(60)
        except subprocess.TimeoutExpired:
            os.killpg(p.pid, signal.SIGKILL)
            p.wait()
            hang('%s %s' % (os.path.basename(self.script), args))
            rc = 'time-out'
        log = [l.rstrip('\n').split('\t') for l in open(self.root + '/log')]
        return rc, log


W = None


def init(i):
    global W
    W = World(B, i)


def fs(start, urls):
    if start == 'old':
        return {target(u): body(u, 'old') for u in urls}
    if start == 'empty':
        return {}
    if start == 'stale':     # left by an interrupted run
        d = {target(u): body(u, 'old') for u in urls}
        d['tle.tmp'] = body('stale temporary', 'older')[:200]
        d['gps.txt'] = body('stale gps', 'older')
        d['iridium.tmp'] = 'x\n'
        return d
    if start == 'user':      # a user's own files next to the targets
        d = {target(u): body(u, 'old') for u in urls[::2]}
        d['my_sats.txt'] = 'user data\n'
        d['mylist'] = 'stations.txt\n'
        return d


def judge(plan, calls, urls, before, after, where, killed):
    """Violations of one run. before/after: repository files; calls: logged downloads."""
    bad = []
    fail = dict(plan)
    star = fail.pop('*', None)
    failing = lambda u: fail.get(u, star) not in (None, 'ok', 'redir')
    allowed = {}
    for u in urls:
        allowed.setdefault(target(u), []).append(u)
    for t, us in allowed.items():
        old = before.get(t)
        got = after.get(t)
        ok = [u for u in us if not failing(u)]
        if killed:
            opts = [old] + [body(u, 'new') for u in ok]
            if got not in opts:
                bad.append((t, 'is neither its old nor a complete new content after the interruption'))
        else:
            want = body(ok[-1], 'new') if ok else old
            if got != want:
                what = 'is missing' if got is None else 'holds its old content' if got == old else 'is damaged: %r' % got[:60]
                bad.append((t, '%s (wanted %s)' % (what, 'the new content of ' + ok[-1] if ok else 'it unchanged')))
    for n, t in before.items():
        if n not in allowed and n != 'tle.tmp' and not n.startswith('special') and after.get(n) != t:
            if not (n == 'gps.txt' and n not in after):
                bad.append((n, 'a file that is not a target was changed'))
    if not killed:
        want = [u for u in urls]
        seen = {c[0] for c in calls}
        miss = [u for u in want if u not in seen]
        if miss:
            bad.append(('calls', 'not attempted after a failure: %s' % miss[:3]))
    return bad


def one(job):
    """job = (key, plan, start, where, urls)"""
    key, plan, start, where, urls = job
    for attempt in (0, 1):
        W.fresh(fs(start, urls), where)
        with open(W.root + '/usrlocal/TLErepo/keep.txt', 'w') as f:
            f.write('keep\n')
        b = W.snap()
        arg = {'repo': [W.root + '/repo'], 'my repo': [W.root + '/my repo'], 'usrlocal/TLErepo': []}[where]
        rc, calls = W.run(plan, 'new', arg)
        a = W.snap()
        pre = where + '/'
        bef = {k[len(pre):]: v for k, v in b.items() if k.startswith(pre)}
        aft = {k[len(pre):]: v for k, v in a.items() if k.startswith(pre)}
        killed = any(k in KILL for _, k in plan)
        bad = judge(plan, calls, urls, bef, aft, where, killed)
        if rc == 'time-out':
            bad.append(('script', 'did not end within 60 s'))
        for k in set(a) | set(b):
            if not k.startswith(pre) and a.get(k) != b.get(k) and not (k.startswith('tmp/') and k.endswith('.log')):
                bad.append((k, 'written outside the given directory'))
        if any(o == 'HANG' for u, o in calls):
            bad.append(('script', 'waits for ever for a server that stops sending'))
        for u, o in calls:
            if o not in ('-', 'HANG') and not os.path.realpath(o).startswith(os.path.realpath(f'{W.root}/{where}') + '/') and o != '/dev/null':
                bad.append((o.replace(W.root, ''), 'downloaded outside the given directory'))
        if not bad:
            return len(calls), None, 0
    return len(calls), (key, ['%s %s' % x for x in bad[:4]], plan[:4], start, where), 0


def missing_dir(c, urls):
    """A directory that does not exist or cannot be written: nothing is downloaded, nothing is written anywhere."""
    n = 0
    for arg, cwdf in ((['/nonexistent/dir'], {}), ([W.root + '/absent'], {}), (['absent'], {'stations.txt': 'x\n'}), ([W.root + '/afile'], {})):
        W.fresh({}, 'repo')
        open(W.root + '/afile', 'w').write('a file\n')
        for f, t in cwdf.items():
            open(f'{W.root}/cwd/{f}', 'w').write(t)
        b = W.snap()
        rc, calls = W.run([], 'new', arg)
        a = W.snap()
        n += 1
        diff = [k for k in set(a) | set(b) if a.get(k) != b.get(k) and not (k.startswith('tmp/') and k.endswith('.log'))]
        if diff:
            c.violation('C19:missing_dir', 'output directory %s is missing but %s was written' % (arg[0].replace(W.root, ''), sorted(diff)[:4]), {'args': arg})
    os.unlink(W.root + '/afile')
    # read-only directory: every file unchanged
    W.fresh(fs('old', urls), 'repo')
    for f in os.listdir(W.root + '/repo'):
        os.chmod(f'{W.root}/repo/{f}', 0o444)
        if os.getuid() == 0:
            os.chown(f'{W.root}/repo/{f}', 0, 0)
    if os.getuid() == 0:
        os.chown(W.root + '/repo', 0, 0)
    os.chmod(W.root + '/repo', 0o555)
    b = W.snap()
    W.run([], 'new', [W.root + '/repo'])
    a = W.snap()
    n += 1
    os.chmod(W.root + '/repo', 0o777)
    diff = [k for k in set(a) | set(b) if a.get(k) != b.get(k) and not (k.startswith('tmp/') and k.endswith('.log'))]
    if diff:
        c.violation('C19:readonly_dir', 'read-only output directory: %s changed' % sorted(diff)[:4], {})
    return n


def satcount(c, urls):
    """With the project's own tle_satcount.sh installed, its files go to the given directory too."""
    W.fresh(fs('old', urls), 'repo')
    p = W.root + '/usrlocal/bin/tle_satcount.sh'
    with open(p, 'w') as f:
        f.write(W.map(open(REPO + '/scripts/tle_satcount.sh').read()))
    os.chmod(p, 0o755)
    for u in urls:
        with open(f'{W.root}/usrlocal/TLErepo/{target(u)}', 'w') as f:
            f.write(body(u, 'other'))
    b = W.snap()
    rc, calls = W.run([], 'new', [W.root + '/repo'])
    a = W.snap()
    diff = [k for k in set(a) | set(b) if a.get(k) != b.get(k) and not k.startswith('repo/') and not (k.startswith('tmp/') and k.endswith('.log'))]
    if diff:
        c.violation('C19:satcount', 'count of satellites written outside the given directory: %s' % sorted(diff)[:4], {})
    return 1


def build_plans(urls):
    jobs = []

    def add(key, plan, start='old', where='repo'):
        jobs.append((key, plan, start, where, urls))
    add('C19:none', [])
    for st in ('empty', 'stale', 'user'):
        add('C19:none:' + st, [], st)
    add('C19:none:space', [], 'old', 'my repo')
    add('C19:none:default', [], 'old', 'usrlocal/TLErepo')
    for k in KINDS:
        for st in ('old', 'empty', 'stale', 'user'):
            add('C19:all:' + k, [('*', k)], st)
        for st in ('old', 'empty') if THOROUGH else ('old',):
            for u in urls:
                add('C19:one:%s:%s' % (k, u), [(u, k)], st)
    for u in urls:         # only one succeeds, the others fail half way
        for k in ('bodyto', 'http404') if THOROUGH else ('bodyto',):
            add('C19:only:%s' % u, [('*', k), (u, 'ok')], 'old')
    for u in urls:
        for k in KILL:
            for st in ('old', 'stale') if THOROUGH else ('old',):
                add('C19:kill:%s:%s' % (k, u), [(u, k)], st)
    pk = list(itertools.product(('bodyto', 'http404', 'noconn', 'empty'), repeat=2))
    pairs = list(itertools.combinations(urls, 2)) if THOROUGH else list(zip(urls, urls[1:]))
    same = [p for p in itertools.combinations(urls, 2) if target(p[0]) == target(p[1])]
    for a, b in pairs + [p for p in same if p not in set(pairs)]:
        near = THOROUGH and urls.index(b) == urls.index(a) + 1
        ks = pk if near or (a, b) in same else [('bodyto', 'noconn'), ('http404', 'empty'), ('noconn', 'bodyto')]
        for ka, kb in ks:
            add('C19:two:%s:%s:%s:%s' % (ka, a, kb, b), [(a, ka), (b, kb)], 'old')
    if THOROUGH:
        for a, b, d in zip(urls, urls[1:], urls[2:]):
            add('C19:three:%s' % a, [(a, 'noconn'), (b, 'bodyto'), (d, 'emptynf')], 'stale')
    return jobs


def run(c):
    global B, ROOT
    B = c.build
    ROOT = tempfile.mkdtemp(prefix='vc19.', dir='/tmp')
    os.chmod(ROOT, 0o755)
    me = os.getpid()
    atexit.register(lambda: os.getpid() == me and shutil.rmtree(ROOT, ignore_errors=True))
    c.build.curl = c.build.dir + '/curl'
    c.build.run(['gcc', '-O2', '-w', VERIF + '/harness/curl_stub.c', '-o', c.build.curl])
    init(0)
    # the downloads the script makes, in order, from a fault-free run
    W.fresh({}, 'repo')
    rc, calls = W.run([], 'new', [W.root + '/repo'])
    urls = list(dict.fromkeys(u for u, o in calls))
    n = missing_dir(c, urls) + satcount(c, urls)
    if len(urls) < 60:
        c.violation('C19:urls', 'only %d downloads made without any fault' % len(urls), {'urls': urls})
    jobs = build_plans(urls)
    res = pmap(one, jobs, chunk=4, init=init)
    nc = 0
    for k, v, _ in res:
        nc += k
        if v:
            c.violation(v[0], '; '.join(v[1]) + ' [initial files: %s]' % v[3], {'plan': v[2], 'start': v[3], 'where': v[4]})
    c.cov = {'evaluations': len(jobs) + n, 'distinct_nontrivial': len(jobs) - 6, 'downloads_run': nc, 'fault_points': len(urls), 'fault_kinds': len(KINDS) + len(KILL),
             'rule': 'every single failing download x %d kinds x initial repositories; every kill point (mid-body and after the body) at every download; every one-succeeds plan; %s; '
                     'missing, relative, file, read-only and spaced output directories; non-trivial = at least one injected fault' %
                     (len(KINDS), 'every pair of failing downloads x 3-16 kind pairs' if THOROUGH else 'every pair of consecutive or same-target failing downloads x 3-16 kind pairs'),
             'samples': [dict(key=j[0], plan=j[1], start=j[2]) for j in jobs[::max(1, len(jobs) // 8)]][:8]}
    c.assump = ['the stand-in curl reproduces exit status, status code and body of real curl for each failure kind (curl manual)',
                'a rename within one directory is atomic (POSIX)', 'paths /tmp and /usr/local are mapped below a scratch directory']


if __name__ == '__main__':
    main('C19', 'fault_enumeration', run)
