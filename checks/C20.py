#!/usr/bin/env python3
"""C20: the real tle_satcount.sh on an enumerated set of repositories, histories and interruptions.

The script of /repo is copied with its absolute paths mapped below a scratch directory and run as an unprivileged user.
Every tool it calls is behind a stand-in that counts the calls and can kill the whole script before any one of them (within a pipeline, one of the concurrent calls)."""
import sys, os, re, subprocess, itertools, shutil, signal
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
from vlib import *

UID = 65534
# what the retrieval script puts into the repository (iss.txt is documented as not counted)
SATS = ('last-30-days stations visual active analyst weather noaa goes resource sarsat dmc tdrss argos spire geo iridium iridium-NEXT globalstar swarm amateur '
        'x-comm other-comm satnogs gorizont raduga molniya gnss gps-ops glo-ops galileo beidou sbas nnss musson science geodetic engineering education military '
        'radar cubesat other gpz gpz-plus starlink oneweb planet glonass meteosat intelsat ses telesat orbcomm cpf').split()
DEB = '1982-092 1999-025 iridium-33-debris cosmos-2251-debris'.split()
TOOLS = 'wc awk mawk gawk tee sed cut sort uniq rm cat mv cp tr grep head tail basename date touch mktemp ls find'.split()
WRAP = '''#!/bin/bash
# stand-in: counts the calls of the script and kills it before call $KILLAT
echo x >> "$CNT.n"; mapfile -t L < "$CNT.n"; n=${#L[@]}
if [ "$n" -ge "$KILLAT" ]; then kill -9 -$STUB_PG; fi
exec /usr/bin/%s "$@"
'''


def text(ids, eol='\r\n', name='OBJECT'):
    return ''.join('%-24s%s1 %sU 98067A   20100.50000000  .00000000  00000-0  00000-0 0  9990%s2 %s  51.6000 100.0000 0001000  50.0000 310.0000 15.50000000    00%s' %
                   ('%s %d' % (name, i), eol, n, eol, n, eol) for i, n in enumerate(ids))


class World:
    calls = 0

    def __init__(self, i):
        self.root = tempfile.mkdtemp(prefix='w%d.' % i, dir=ROOT)
        os.chmod(self.root, 0o755)
        os.mkdir(self.root + '/bin')
        for t in TOOLS:
            if os.path.exists('/usr/bin/' + t):
                with open(f'{self.root}/bin/{t}', 'w') as f:
                    f.write(WRAP % t)
                os.chmod(f'{self.root}/bin/{t}', 0o755)
        s = open(REPO + '/scripts/tle_satcount.sh').read()
        s = re.sub(r'/usr/local\b', self.root + '/usrlocal', re.sub(r'(?<![\w.])/tmp\b', self.root + '/tmp', s))
        self.script = f'{self.root}/tle_satcount.sh'
        open(self.script, 'w').write(s)
        os.chmod(self.script, 0o755)

    def dir(self, d):
        os.makedirs(f'{self.root}/{d}', exist_ok=True)
        os.chmod(f'{self.root}/{d}', 0o777)
        if os.getuid() == 0:
            os.chown(f'{self.root}/{d}', UID, UID)

    def fresh(self):
        for d in ('cwd', 'tmp', 'usrlocal', 'repo', 'my repo'):
            shutil.rmtree(f'{self.root}/{d}', ignore_errors=True)
        for d in ('cwd', 'tmp', 'usrlocal', 'usrlocal/TLErepo', 'repo'):
            self.dir(d)

    def fill(self, files, where='repo'):
        self.dir(where)
        for n in os.listdir(f'{self.root}/{where}'):
            if n.endswith('.txt'):
                os.unlink(f'{self.root}/{where}/{n}')
        for n, t in files.items():
            with open(f'{self.root}/{where}/{n}', 'w', newline='') as f:
                f.write(t)

    def run(self, args, killat=0):
        env = {'PATH': (self.root + '/bin:' if killat else '') + '/usr/bin:/bin', 'TMPDIR': self.root + '/tmp', 'HOME': self.root + '/cwd', 'LC_ALL': 'C',
               'CNT': self.root + '/tmp/calls', 'KILLAT': str(killat)}
        for n in ('calls.n',):
            if os.path.exists(self.root + '/tmp/' + n):
                os.unlink(self.root + '/tmp/' + n)

        def pre():
            os.setsid()
            if os.getuid() == 0:
                try:
                    os.setgroups([])
                    os.setgid(UID)
                    os.setuid(UID)
                except OSError:
                    pass
        p = subprocess.Popen(['/bin/bash', '-c', 'STUB_PG=$$ exec /bin/bash "$0" "$@"', self.script] + args, cwd=self.root + '/cwd', env=env, stdin=subprocess.DEVNULL,
                             stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, preexec_fn=pre, text=True)
        try:
            out, _ = p.communicate(timeout=60)
        except subprocess.TimeoutExpired:
            os.killpg(p.pid, signal.SIGKILL)
            p.wait()
            hang('%s %s' % (os.path.basename(self.script), args))
            return 'time-out', ''
        try:
            k = len(open(self.root + '/tmp/calls.n').read().split())
        except (OSError, ValueError):
            k = 0
        for n in os.listdir(self.root + '/tmp'):
            if n.startswith('calls'):
                os.unlink(self.root + '/tmp/' + n)
        self.calls = k
        return p.returncode, out

    def snap(self):
        r = {}
        for d, _, fs in os.walk(self.root):
            for n in fs:
                q = os.path.relpath(os.path.join(d, n), self.root)
                if not q.startswith('bin/') and q != 'tle_satcount.sh':
                    with open(os.path.join(d, n), newline='', errors='replace') as f:
                        r[q] = f.read()
        return r


def judge(w, files, where, before, out):
    """Compare the results in the repository directory with the counts of the text."""
    bad = []
    a = w.snap()
    ids = {n: [l.split()[1] for l in t.splitlines() if l.startswith('2 ')] for n, t in files.items()}
    want = {n: len(ids[n + '.txt']) for n in SATS + DEB if n + '.txt' in ids}
    uniq = sorted({i for n in SATS if n + '.txt' in ids for i in ids[n + '.txt']})
    ndeb = sum(want.get(n, 0) for n in DEB)
    php = a.get(where + '/cur_tlesat_count.php', '')
    got = re.findall(r'''^\s*["'](.+?)["']\s*=>\s*([0-9.eE+-]+)\s*,?\s*$''', php, re.M)
    exp = [(n, want[n]) for n in SATS + DEB if n in want] + [('@ALL_merged_nodeb', len(uniq)), ('@ALL_merged', len(uniq) + ndeb)]
    gd = {n: float(v) for n, v in got}
    for n, v in exp:
        if gd.get(n) != v:
            bad.append('%s counted %s, file holds %d' % (n, gd.get(n), v) if n[0] != '@' else '%s is %s, should be %d' % (n, gd.get(n), v))
    ex = set(n for n, _ in exp)
    for n in gd:
        if n not in ex:
            bad.append('count of %s given, there is no such file' % n)
    if len(got) != len(gd):
        bad.append('a name is listed twice')
    if not re.match(r'\s*<\?php\b', php) or not re.search(r'\?>\s*$', php):
        bad.append('cur_tlesat_count.php is not a complete PHP file')
    if php.count('(') != php.count(')'):
        bad.append('unbalanced array in cur_tlesat_count.php')
    lis = a.get(where + '/cur_norad_ids.lis')
    if lis is None or lis.split('\n') != uniq + ['']:
        bad.append('list of catalogue numbers is %r, should be %s' % (lis if lis is None else lis.split()[:8], uniq[:8]))
    shown = dict(l.split(' ') for l in out.splitlines() if re.match(r'^\S+ [0-9.]+$', l))
    for n, v in want.items():
        if shown.get(n) != str(v):
            bad.append('printed count of %s is %s, file holds %d' % (n, shown.get(n), v))
    own = ('cur_norad_ids.lis', 'cur_norad_ids.lis_tmp', 'cur_tlesat_count.php')
    for k in set(a) | set(before):
        if a.get(k) != before.get(k) and not (k.startswith(where + '/') and k[len(where) + 1:] in own) and not k.startswith('tmp/'):
            bad.append('%s was %s' % (k, 'removed' if k not in a else 'written'))
    for n, t in files.items():
        if a.get(where + '/' + n) != t:
            bad.append('%s was changed' % n)
    return bad


W = None


def init(i):
    global W
    W = World(i)


def one(job):
    """job = (key, [states in order], where, kill): each state is filled in and counted; with kill the script is first killed before that call."""
    key, states, where, kill = job
    W.fresh()
    n, killed = 0, 0
    states = [{f: text(['%05d' % i for i in range(1, t + 1)]) if isinstance(t, int) else t for f, t in st.items()} for st in states]
    for k, files in enumerate(states):
        W.fill(files, where)
        args = [W.root + '/' + where] if where != 'usrlocal/TLErepo' else []
        if kill and k == 0:
            rc, _ = W.run(args, kill)
            killed += rc == -9
            n += 1
            if len(states) > 1:
                continue
        b = W.snap()
        rc, out = W.run(args)
        n += 1
        bad = judge(W, files, where, b, out)
        states[k] = {f: t if len(t) < 4000 else '(%d bytes)' % len(t) for f, t in files.items()}
        if rc == 'time-out':
            bad.append('the script did not end within 60 s')
        elif rc:
            bad.append('exit status %s' % rc)
        if bad:
            return n, killed, (key, bad[:4], {'states': states, 'where': where, 'killed before call': kill})
    return n, killed, None


def missing(c):
    n = 0
    f = {'stations.txt': text(['00001'])}
    for arg in ('/nonexistent/dir', W.root + '/absent', 'absent', W.root + '/afile'):
        W.fresh()
        W.fill(f, 'cwd')
        for x in ('cur_norad_ids.lis', 'cur_tlesat_count.php'):
            open(W.root + '/cwd/' + x, 'w').write('mine\n')
            os.chmod(W.root + '/cwd/' + x, 0o666)
        open(W.root + '/afile', 'w').write('a file\n')
        b = W.snap()
        W.run([arg])
        a = W.snap()
        n += 1
        d = [k for k in set(a) | set(b) if a.get(k) != b.get(k) and not k.startswith('tmp/')]
        if d:
            c.violation('C20:missing_dir', 'repository directory %s does not exist, but %s was changed' % (arg.replace(W.root, ''), sorted(d)[:4]), {'args': arg})
    os.unlink(W.root + '/afile')
    return n


def jobs_of():
    jobs = []
    I = ['00001', '00002', 'A0003']

    def add(key, states, where='repo', kill=0):
        jobs.append((key, states, where, kill))
    add('C20:none', [{}])
    full = {n + '.txt': text(['%05d' % (10 * i + j) for j in range(i % 4)]) for i, n in enumerate(SATS + DEB)}
    full['iss.txt'] = text(['77777'])
    full['mine.txt'] = text(['88888', '88889'])
    add('C20:full', [full])
    add('C20:full:default', [full], 'usrlocal/TLErepo')
    add('C20:full:space', [full], 'my repo')
    for n in SATS + DEB:
        add('C20:only:' + n, [{n + '.txt': text(['00011', 'B0012'], '\n')}])
        add('C20:without:' + n, [{k: v for k, v in full.items() if k != n + '.txt'}])
        if THOROUGH:
            add('C20:empty:' + n, [dict(full, **{n + '.txt': ''})])
            add('C20:twice:' + n, [dict(full, **{n + '.txt': text(['00011', '00011'])})])
    seqs = [None, ()] + [s for k in range(1, 3 if not THOROUGH else 4) for s in itertools.product(I, repeat=k)]
    # sharing of catalogue numbers between a main, a supplemental and a debris file
    for a in seqs:
        for b in seqs:
            for d in ([None, ('00001',)] if not THOROUGH else [None, (), ('00001',), ('00001', '00009')]):
                f = {n + '.txt': text(s) for n, s in (('weather', a), ('starlink', b), ('1999-025', d)) if s is not None}
                add('C20:share:%s:%s:%s' % (a, b, d), [f])
    # counts on both sides of every change of their length
    big = [9, 10, 11, 99, 100, 101, 999, 1000, 1001, 3333, 3334, 9999, 10000, 10001] + ([333, 334, 33333, 33334, 99999] if THOROUGH else [33334])
    for x in big:
        for n in ('stations', 'cpf', '1982-092', 'cosmos-2251-debris'):
            add('C20:big:%s:%d' % (n, x), [{n + '.txt': x}])
        for a, b in (('weather', 'starlink'), ('1982-092', '1999-025'), ('iridium-33-debris', 'ses')):
            add('C20:big:%s+%s:%d' % (a, b, x), [{a + '.txt': x, b + '.txt': 7 if x > 9000 else x}])
    add('C20:big:history', [{'geo.txt': 10000, '1999-025.txt': 10000}, {'geo.txt': 9, '1999-025.txt': 9}])
    S = [{}, {'stations.txt': text(['00001'])}, {'stations.txt': text(['00001', '00002']), 'cpf.txt': text(['00002'])}, {'1982-092.txt': text(['00005', '00006'])}, full]
    for k in (2, 3) if THOROUGH else (2,):
        for h in itertools.product(range(len(S)), repeat=k):
            add('C20:history:%s' % (h,), [S[i] for i in h])
    return jobs, S, add


def run(c):
    global ROOT
    ROOT = tempfile.mkdtemp(prefix='vc20.', dir='/tmp')
    os.chmod(ROOT, 0o755)
    me = os.getpid()
    atexit.register(lambda: os.getpid() == me and shutil.rmtree(ROOT, ignore_errors=True))
    init(0)
    n = missing(c)
    jobs, S, add = jobs_of()
    # number of interruption points: the calls of an undisturbed run
    W.fresh()
    W.fill(S[2])
    W.run([W.root + '/repo'], 10 ** 9)
    calls = W.calls
    for k in range(1, calls + 1):
        add('C20:kill:%d' % k, [S[2]], 'repo', k)
        if THOROUGH or k % 4 == 0:
            add('C20:kill_then:%d' % k, [S[2], S[1]], 'repo', k)
            if THOROUGH:
                add('C20:kill_full:%d' % k, [S[4], S[0]], 'repo', k)
    nk = 0
    for k, x, v in pmap(one, jobs, chunk=2, init=init):
        n += k
        nk += x
        if v:
            c.violation(v[0], '; '.join(v[1]), v[2])
    c.cov = {'evaluations': n, 'distinct_nontrivial': len(jobs) - 1, 'interruption_points': calls, 'interrupted_runs': nk, 'histories': sum(len(j[1]) > 1 for j in jobs),
             'rule': 'every single listed file alone and every file left out; every pair of sequences of up to %d of 3 catalogue numbers in a main and a supplemental file x debris; every history of up to %d '
                     'repository states; files of 9 to 33334 element sets (99999 thorough) on both sides of each change of length; the script killed before every tool call of a run, then run again on the same and on another repository; missing, relative, file, default and spaced directories; '
                     'non-trivial = any element set' % ((3, 3) if THOROUGH else (2, 2)), 'samples': [j[0] for j in jobs[::max(1, len(jobs) // 8)]][:8]}
    c.assump = ['tools behave as GNU coreutils / the installed awk', 'paths /tmp and /usr/local are mapped below a scratch directory']


if __name__ == '__main__':
    main('C20', 'fault_enumeration', run)
