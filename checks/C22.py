#!/usr/bin/env python3
"""C22: the refresh script, the satellite count and the searches over the shipped lists as one system.

The real tle_retrieve.sh (with the real tle_satcount.sh installed, a stand-in curl serving well-formed element sets and a scripted
clock) fills a scratch repository for every date, failure combination, history and way of naming the directory; special.txt, the lists and
the counts are compared with a model of the text, and the real sat_skymap searches the result."""
import sys, os, re, json, itertools
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
from vlib import *
import vlib, sky
import C19

SPECIAL = {'science.txt': 'HST CXO GLAST SWIFT NUSTAR AGILE INTEGRAL ASTROSAT HXMT XMM WISE SDO IXPE'.split(), 'stations.txt': ['ZARYA'], 'active.txt': ['CHEOPS', 'TESS']}
CRAFT = {'gaia_2025.txt': 'GAIA', 'jwt_2025.txt': 'JAMES WEBB', 'euclid_2025.txt': 'EUCLID', 'juice_2024.txt': 'JUICE'}
NAMES = {'science.txt': ['HST', 'CXO', 'FGRST (GLAST)', 'SWIFT', 'NUSTAR', 'AGILE', 'INTEGRAL', 'ASTROSAT', 'HXMT (HUIYAN)', 'XMM-NEWTON', 'WISE', 'SDO', 'IXPE', 'HINODE', 'POLAR'],
         'stations.txt': ['ISS (ZARYA)', 'ISS (NAUKA)', 'CSS (TIANHE)'], 'active.txt': ['CALSPHERE 1', 'HST', 'CHEOPS', 'ISS (ZARYA)', 'TESS', 'SWIFT']}
DEB = ['1982-092.txt', '1999-025.txt', 'iridium-33-debris.txt', 'cosmos-2251-debris.txt']
IDS = {'HST': 20580, 'ISS (ZARYA)': 25544, 'CHEOPS': 44874, 'TESS': 43435, 'SWIFT': 28485}
SITE = '44.52804,11.33715,23.5'
DATE = '''#!/bin/bash
# stand-in: the scripted clock
exec /usr/bin/date -d "@$VNOW" "$@"
'''


def content(url, i, version):
    """Entries [(name, id, line1, line2)] of the i-th download in one version."""
    t = C19.target(url)
    names = NAMES.get(t, ['OBJECT %d' % i, 'SHARED'])
    if version == 'other':
        names = names[1:] + ['LATE %d' % i]
    if version == 'one':
        names = names[:1]
    if t in DEB:
        names = ['DEB', 'DEB', 'DEB']
    out = []
    for k, n in enumerate(names):
        nid = 90000 + 3 * DEB.index(t) + k if t in DEB else IDS.get(n, 80000 if n == 'SHARED' else 50000 + 40 * i + (k + 1 if version == 'other' and k < len(names) - 1 else 39 if n[:4] == 'LATE' else k))
        ep = {'new': 20100.5, 'other': 20101.25, 'one': 20102.0}[version]
        l1, l2 = sky.tle(nid, '98067A  ')
        out.append((n, nid, l1, l2))
    return out


def text(ents):
    return ''.join('%-24s\r\n%s\r\n%s\r\n' % (n, a, b) for n, _, a, b in ents)


class World(C19.World):
    def __init__(self, b, i):
        super().__init__(b, i)
        with open(self.root + '/bin/date', 'w') as f:
            f.write(DATE)
        os.chmod(self.root + '/bin/date', 0o755)

    def bodies(self, version):
        d = self.root + '/bodies'
        shutil.rmtree(d, ignore_errors=True)
        os.mkdir(d)
        os.chmod(d, 0o755)
        for u in URLS:
            with open(d + '/' + re.sub(r'[^-.A-Za-z0-9]', '_', u), 'w', newline='') as f:
                f.write(text(content(u, URLS.index(u), version if isinstance(version, str) else version.get(C19.target(u), 'new'))))

    def fresh(self, files, where='repo'):
        super().fresh(files, where)
        p = self.root + '/usrlocal/bin/tle_satcount.sh'
        with open(p, 'w') as f:
            f.write(self.map(open(REPO + '/scripts/tle_satcount.sh').read()))
        os.chmod(p, 0o755)

    def refresh(self, plan, args, cwd, now):
        os.environ['VNOW'] = str(now)
        os.environ['STUB_BODIES'] = self.root + '/bodies'
        with open(self.root + '/plan', 'w') as f:
            f.writelines('%s %s\n' % (k, u) for u, k in plan)
        env = {'PATH': self.root + '/bin:/usr/bin:/bin', 'HOME': self.root + '/home', 'TMPDIR': self.root + '/tmp', 'LC_ALL': 'C', 'TZ': ('Etc/GMT+12', 'Pacific/Kiritimati')[now // 86400 % 2], 'VNOW': str(now),
               'STUB_PLAN': self.root + '/plan', 'STUB_BODIES': self.root + '/bodies'}
        p = subprocess.Popen(['/bin/bash', self.script] + args, cwd=f'{self.root}/{cwd}', env=env, stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL,
                             stderr=subprocess.DEVNULL, preexec_fn=C19.demote)
        try:
            return p.wait(60)
        except subprocess.TimeoutExpired:
            os.killpg(p.pid, 9)
            p.wait()
            hang('%s %s' % (os.path.basename(self.script), args))
            return 'time-out'


def parse(t):
    """Entries (name, line1, line2) of a repository file and what is left over."""
    L = [l.rstrip() for l in t.replace('\r', '').split('\n')]
    out, rest, k = [], [], 0
    L = [l for l in L if l and l[0] != '#']
    while k < len(L):
        if k + 2 < len(L) and L[k + 1][:2] == '1 ' and L[k + 2][:2] == '2 ' and L[k][:2] not in ('1 ', '2 '):
            out.append((L[k], L[k + 1], L[k + 2]))
            k += 3
        else:
            rest.append(L[k])
            k += 1
    return out, rest


def craft_table():
    tab = {}
    for f in CRAFT:
        L = open(REPO + '/scripts/' + f).read().replace('\r', '').split('\n')
        tab[f] = {}
        for k, l in enumerate(L):
            m = re.match(r'# MJD (\d+)\.0', l)
            if m:
                tab[f][int(m.group(1))] = (L[k + 2].rstrip(), L[k + 3].rstrip())
    return tab


def judge_special(files, now):
    """special.txt against the present files."""
    bad = []
    got, rest = parse(files.get('special.txt', ''))
    if rest:
        bad.append('special.txt has stray lines: %s' % rest[:3])
    want = []
    for f, toks in SPECIAL.items():
        for n, a, b in parse(files.get(f, ''))[0]:
            if any(t in n for t in toks):
                want.append((n, a, b))
    mjd = now / 86400 + 40587
    craft = [g for g in got if g[0] in CRAFT.values()]
    plain = [g for g in got if g[0] not in CRAFT.values()]
    if sorted(plain) != sorted(want):
        miss = [w[0] for w in want if w not in plain]
        more = [g[0] for g in plain if plain.count(g) > want.count(g)]
        bad.append('special.txt lacks %s, has too much %s' % (miss[:4], more[:4]))
    for f, n in CRAFT.items():
        g = [(a, b) for m, a, b in craft if m == n]
        near = [TAB[f][m] for m in (int(mjd), int(mjd) + 1) if m in TAB[f]] if f in files else []
        if len(g) > 1 or (not g and len(near) == 2) or any(x not in near for x in g):
            bad.append('special.txt has %d entries of %s %s at MJD %.2f' % (len(g), n, [x[0][18:32] for x in g], mjd))
    return bad, got


def search(repo, f, now, extra=()):
    argv = [f, '-D' + repo, '-l' + SITE, '-j%.5f' % (now / 86400 + 40587), '-r360', '-H', '-n1000000'] + list(extra)
    r = subprocess.run([EXE] + argv, capture_output=True, timeout=60)
    return r.returncode, json.loads(r.stdout.decode('latin-1'))


def one(job):
    """job = (key, start files, spacecraft files?, steps, how): steps = [(version, plan, time)]; how names the directory."""
    key, start, craft, steps, how = job
    where, args, cwd = {'abs': ('repo', [W.root + '/repo'], 'cwd'), 'rel': ('repo', ['repo'], '.'), 'dot': ('repo', ['.'], 'repo'), 'up': ('repo', ['../repo/'], 'cwd'),
                        'default': ('usrlocal/TLErepo', [], 'cwd'), 'space': ('my repo', ['my repo'], '.')}[how]
    init_files = {t: text(content(u, URLS.index(u), start.get(t, '') or 'one')) for u in URLS for t in [C19.target(u)] if t in start} if start else {}
    for f in CRAFT if craft else ():
        init_files[f] = open(REPO + '/scripts/' + f).read()
    for l in ('ALL_merged.lis', 'ALL_merged_nodeb.lis'):
        init_files[l] = open(REPO + '/' + l).read()
    W.fresh(init_files, where)
    n = 0
    for version, plan, now in steps:
        W.bodies(version)
        rc = W.refresh([(u, k) for u in URLS for t, k in plan if C19.target(u) == t], args, cwd, now)
        n += 1
        repo = f'{W.root}/{where}'
        files = {}
        for f in os.listdir(repo):
            with open(f'{repo}/{f}', newline='', errors='replace') as g:
                files[f] = g.read()
        bad, ents = judge_special(files, now)
        if rc == 'time-out':
            bad.append('the refresh did not end within 60 s')
        # the searches
        have = {f: [int(a[2:7]) for _, a, b in parse(t)[0]] for f, t in files.items() if f.endswith('.txt') and f[:-9] not in ('gaia', 'jwt', 'euclid', 'juice')}
        queries = [('special.txt', list(dict.fromkeys(int(a[2:7]) for _, a, b in ents)))]
        if not plan and rc == 0:
            for l, deb in (('ALL_merged.lis', True), ('ALL_merged_nodeb.lis', False)):
                queries.append(('@' + l, sorted({i for f, x in have.items() if (deb or f not in DEB) and f not in ('special.txt', 'iss.txt') for i in x})))
        for f, want in queries:
            if f == 'special.txt' and not want:
                continue
            try:
                r, doc = search(repo, f, now)
                ids = [s['norad_n'] for s in doc.get('satellites', [])]
                n += 1
                if f[0] == '@':
                    ids.sort()
                if r or doc['status']:
                    bad.append('search over %s: exit %d, %r' % (f, r, doc['errmsg'].replace(W.root, '')))
                elif ids != want:
                    bad.append('search over %s: lacks %s, has too much %s' % (f, [i for i in want if i not in ids][:4], [i for i in ids if i not in want][:4]))
                if f[0] == '@':
                    m = re.search(r"'@%s' => (\d+)" % f[1:-4], files.get('cur_tlesat_count.php', ''))
                    if not m or int(m.group(1)) != len(want):
                        bad.append('count %s is %s, %d satellites are found' % (f[:-4], m and m.group(1), len(want)))
            except (ValueError, subprocess.TimeoutExpired, KeyError) as e:
                bad.append('search over %s: %s' % (f, type(e).__name__))
        if bad:
            return n, (key, bad[:4], {'steps': steps, 'directory': how, 'start': sorted(start)[:5] if start else None})
    return n, None


W = None


def init(i):
    global W
    W = C19.W = World(B, i)


def jobs_of():
    jobs = []
    T0 = (60800 - 40587) * 86400

    def add(key, start=None, craft=True, steps=(('new', (), T0 + 40000),), how='abs'):
        jobs.append((key, start, craft, list(steps), how))
    for how in ('abs', 'rel', 'dot', 'up', 'default', 'space'):
        for craft in (True, False):
            add('C22:directory:%s:%s' % (how, craft), None, craft, how=how)
    # every combination of sources: absent and failing, old and failing, new, new over old, with one object only
    opts = ['absent', 'old', 'new', 'over', 'one']
    for combo in itertools.product(opts, repeat=3):
        fs = ('science.txt', 'stations.txt', 'active.txt')
        start = {f: 'other' for f, o in zip(fs, combo) if o in ('old', 'over')}
        plan = tuple((f, 'bodyto' if o == 'old' else 'http404') for f, o in zip(fs, combo) if o in ('absent', 'old'))
        add('C22:sources:%s' % ','.join(combo), start, combo[0] != 'new', [({f: 'one' for f, o in zip(fs, combo) if o == 'one'}, plan, T0 + 86399)])
    # histories of refreshes
    st = [('new', ()), ('other', ()), ('one', ()), ('new', (('science.txt', 'noconn'),)), ('other', (('stations.txt', 'empty'), ('active.txt', 'bodyto')))]
    for k in (2, 3) if THOROUGH else (2,):
        for h in itertools.product(range(len(st)), repeat=k):
            add('C22:history:%s' % (h,), None, True, [(st[i][0], st[i][1], T0 + 86400 * j * 40) for j, i in enumerate(h)])
    # every day of the spacecraft lists and some around
    days = sorted({d + k for f in TAB for d in TAB[f] for k in (-2, -1, 0, 1, 2)})
    for i, d in enumerate(days):
        for s in ((0, 1, 43200, 86399) if THOROUGH else ((0, 86399, 43200, 1)[i % 4],)):
            add('C22:day:%d+%d' % (d, s), None, True, [('one', (), (d - 40587) * 86400 + s)])
    return jobs, len(days)


def run(c):
    global B, URLS, TAB, EXE, ROOT
    B = c.build
    EXE = c.build.program('sat_skymap')
    ROOT = C19.ROOT = tempfile.mkdtemp(prefix='vc22.', dir='/tmp')
    os.chmod(ROOT, 0o755)
    me = os.getpid()
    atexit.register(lambda: os.getpid() == me and shutil.rmtree(ROOT, ignore_errors=True))
    c.build.curl = c.build.dir + '/curl'
    c.build.run(['gcc', '-O2', '-w', VERIF + '/harness/curl_stub.c', '-o', c.build.curl])
    URLS = []
    w = C19.World(c.build, 0)
    w.fresh({}, 'repo')
    _, calls = w.run([], 'new', [w.root + '/repo'])
    URLS = list(dict.fromkeys(u for u, o in calls))
    TAB = craft_table()
    jobs, nd = jobs_of()
    n = 0
    for k, v in pmap(one, jobs, chunk=2, init=init):
        n += k
        if v:
            c.violation(v[0], '; '.join(v[1]), v[2])
    c.cov = {'evaluations': n, 'distinct_nontrivial': len(jobs), 'days': nd, 'exhaustive': True,
             'rule': 'every day of the spacecraft lists and two around (at %s second of the day); every combination of 5 states of the three source files; every history of up to %d of 5 refreshes; six ways of '
                     'naming the directory; after each: special.txt, search over it, and when all downloads succeed searches over both lists and the counts' % (('each of 4', 3) if THOROUGH else ('one', 2)),
             'samples': [j[0] for j in jobs[::max(1, len(jobs) // 8)]][:8]}
    c.assump = ['no element line contains the name of one of the special satellites', 'tools behave as GNU coreutils / the installed awk', 'paths /tmp and /usr/local are mapped below a scratch directory']


if __name__ == '__main__':
    main('C22', 'fault_enumeration', run)
