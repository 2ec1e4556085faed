#!/usr/bin/env python3
"""C12: the five models and the state-vector integration over product grids of elements and times against independently written equations (in-process); and both
programs, with their own choice of model, against themselves fed with reference positions (real main())."""
import os, sys, math, subprocess, itertools, datetime
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import vlib, model as M
from vlib import THOROUGH, tle, checksum


def b36(v):
    s, n = '', abs(v)
    while n:
        s = '0123456789ABCDEFGHIJKLMNOPQRSTUVWXYZ'[n % 36] + s
        n //= 36
    return ('-' if v < 0 else '+') + s.rjust(8, '0')


def jd_of(epoch):
    return datetime.date(2000 + int(epoch[:2]), 1, 1).toordinal() + 1721424.5 + float(epoch[2:]) - 1


class Orbit:
    def __init__(self, etype='0', epoch='20013.50000000', incl=51.6, ecc=.001, n=15.5, node=10., argp=20., ma=30., bstar=(0, 0), state=None):
        self.epoch, self.etype, self.state = jd_of(epoch), etype, state
        self.el = (incl, node, ecc, argp, ma, n, bstar[0] * 1e-5 * 10.0 ** bstar[1])
        if state:
            l1 = ('1 00001U 20001A   %s ' % epoch).ljust(33) + ' '.join(b36(v) for v in state[:3]) + 'H  999'
            l2 = '2 00001'.ljust(33) + ' '.join(b36(v) for v in state[3:]) + '     1'
            l1, l2 = l1[:68].ljust(68), l2[:68].ljust(68)
            self.lines = (l1 + str(checksum(l1)), l2 + str(checksum(l2)))
        else:
            m, x = bstar
            self.lines = tle(1, epoch=epoch, incl=incl, ecc=ecc, n=n, node=node, argp=argp, ma=ma, etype=etype, bstar='%s%05d%s%d' % ('-' if m < 0 else ' ', abs(m), '-' if x <= 0 else '+', abs(x)))

    def request(self, jd):
        if self.state:
            return 'H %r %r %r %r %r %r %r %r' % (self.state[:3] + tuple(v * 1e-4 for v in self.state[3:]) + (self.epoch, jd))
        k = {'3': 'D', '5': 'D', '2': 'N', '4': 'N'}.get(self.etype, '0')
        return k + ' %r %r %r %r %r %r %r %r %r' % (self.el + (self.epoch, jd))


def border(incl, ecc, sign):
    """Mean motion (revolutions per day, 8 decimals) whose Brouwer period is 0.002 minutes on one side of 225."""
    k2, ke = 1.082616e-3, 0.0743669161331734132
    th, b2 = math.cos(math.radians(incl)), 1 - ecc * ecc
    lo, hi = 6.0, 6.8
    for _ in range(80):
        m = (lo + hi) / 2
        n = m * math.pi / 720
        k = .75 * k2 * (3 * th * th - 1) / b2 ** 1.5
        a1 = (ke / n) ** (2 / 3)
        d1 = k / a1 ** 2
        a0 = a1 * (1 - d1 / 3 - d1 * d1 - 134 / 81 * d1 ** 3)
        per = 2 * math.pi * (1 + k / a0 ** 2) / n
        if per > 225 + sign * .002:
            lo = m
        else:
            hi = m
    return round(m, 8)


ORBITS = [Orbit(bstar=(31000, -4)), Orbit(epoch='20013.20000000', incl=97.5, ecc=.004, n=16.1, node=300., bstar=(50000, -3)), Orbit(epoch='20012.90000000', incl=28.5, ecc=.18, n=10.5, node=200., argp=300., bstar=(-12000, -3)),
          Orbit(incl=144., ecc=.02, n=13., ma=200., bstar=(10000, -4)), Orbit(incl=63., ecc=.02, n=6.3, node=20., argp=45., ma=90.), Orbit(incl=7., ecc=.73, n=2.25, argp=180., ma=5., bstar=(14311, 0)),
          Orbit(incl=56., n=1.86, node=160., ma=120.), Orbit(incl=63.4, ecc=.71, n=2.006, node=120., argp=270., ma=10.), Orbit(incl=10., ecc=.74, n=1.99, node=300., argp=90., ma=350., epoch='20001.00000000'),
          Orbit(incl=.02, ecc=.0002, n=1.00272, node=80., argp=150., ma=200.), Orbit(incl=63.4, ecc=.27, n=1.003, node=200., argp=270., ma=180., epoch='20020.00000000'),
          Orbit(incl=90., ecc=.3, n=6.6, etype='3'), Orbit(incl=70., ecc=.1, n=5.6, etype='2'), Orbit(incl=70., ecc=.1, n=7., etype='5'), Orbit(incl=20., ecc=.1, n=1.9, etype='4'), Orbit(incl=98., n=14.2, etype=' '),
          Orbit(incl=60., ecc=.2, n=4., etype=' '),
          Orbit(state=(40000000, 10000000, -5000000, -8000000, 27000000, 5000000)), Orbit(epoch='20013.25000000', state=(-900000000, 750000000, 460000000, -1000000, -2000000, 1000000)),
          Orbit(epoch='20010.75000000', state=(500000000, -650000000, 660000000, 1000000, -4000000, -3000000))]
for _i, _e in ((0., 0.0001), (30., .05), (63.4, .3), (89., .01), (140., .2)):
    for _s in (1, -1):
        ORBITS.append(Orbit(incl=_i, ecc=_e, n=border(_i, _e, _s), node=60., argp=100., ma=220., epoch='19320.50000000'))

SITES = [(-29.25, -70.5, 2400.0), (61.0, 24.0, 100.0)]
DAYS = [58861.5, 58866.28, 58852.7] + ([58900.11, 58800.9, 58861.25, 59020.0, 58862.03] if THOROUGH else [])


def worker_init(w):
    global SK, SV
    SK, SV = vlib.Srv(EXE[0], C.build.scratch('k%s' % w)), vlib.Srv(EXE[1], C.build.scratch('v%s' % w))


def positions(o, jds):
    p = subprocess.run([REF, 'ref'], input='\n'.join(o.request(j) for j in jds) + '\n', stdout=subprocess.PIPE, text=True)
    out = []
    for l in p.stdout.splitlines():
        e, x, y, z = l.split()
        out.append((int(e), float(x), float(y), float(z)))
    assert len(out) == len(jds)
    return out


def near(a, b, tol):
    return abs(a - b) <= tol


def compare(path, a, b, deep, bad):
    """a: real, b: reference-fed."""
    ang, km = (1.2e-2, .9) if deep else (2.1e-3, .021)
    if isinstance(a, dict) and isinstance(b, dict) and a.keys() == b.keys():
        for k in a:
            x, y = a[k], b[k]
            if k in ('run_command',):
                continue
            num = isinstance(x, (int, float)) and isinstance(y, (int, float))
            if not num:
                compare(path + '.' + k, x, y, deep, bad)
                continue
            if k in ('az', 'ra', 'lon', 'theta', 'parang', 'RA_start', 'RA_end'):
                lat = b.get({'az': 'alt', 'ra': 'dec', 'lon': 'lat', 'theta': 'lat', 'parang': 'alt', 'RA_start': 'Dec_start', 'RA_end': 'Dec_end'}[k], 0)
                lat = lat if isinstance(lat, (int, float)) and abs(lat) <= 90 else 0
                if M.adiff(x, y) * math.cos(math.radians(lat)) > ang * 1.5:
                    bad.append('%s.%s %r, with reference positions %r' % (path, k, x, y))
            elif k == 'PA':
                sp = b.get('Speed', 0)
                if M.adiff(x, y) > 1.01 + (.3 if not deep else 1) / max(sp, 1e-3) / 10:
                    bad.append('%s.%s %r, with reference positions %r' % (path, k, x, y))
            elif k in ('Distance',) or (k == 'alt' and 'lat' in b):
                if not near(x, y, km + 1e-6 * abs(y)):
                    bad.append('%s.%s %r, with reference positions %r' % (path, k, x, y))
            elif k == 'Speed':
                if not near(x, y, .0025 + (.002 if not deep else .02) * abs(y)):
                    bad.append('%s.%s %r, with reference positions %r' % (path, k, x, y))
            elif k in ('HPXID_8', 'n_sunlit_sats') or (k == 'sunlit' and deep):
                continue
            else:
                compare(path + '.' + k, x, y, deep, bad)
    elif isinstance(a, list) and isinstance(b, list) and len(a) == len(b):
        for i, (x, y) in enumerate(zip(a, b)):
            compare('%s[%d]' % (path, i), x, y, deep, bad)
    elif isinstance(a, (int, float)) and isinstance(b, (int, float)):
        if not near(a, b, ang):
            bad.append('%s %r, with reference positions %r' % (path, a, b))
    elif a != b:
        bad.append('%s %r, with reference positions %r' % (path, a, b))


def named(doc):
    """Data rows of sat_skymap by field name."""
    f = doc.get('data_fields', {}).get('name')
    if f:
        for s in doc.get('satellites', []):
            if len(s.get('data', [])) == len(f):
                s['data'] = dict(zip(f, s['data']))
    return doc


def one(job):
    kind, oi, site, mjd, dt = job
    o = ORBITS[oi]
    f = {'c.tle': '\n'.join(o.lines) + '\n'}
    loc = '-l%r,%r,%r' % site
    jd0 = mjd + M.JD_OFF
    if kind == 'k':
        argv = ['c.tle', '-j%r' % mjd, loc, '-i2020-001A' if o.state else '-i1998-067A', '-t%d' % dt]
        jds = sorted([jd0, jd0 + dt / 86400])
    elif kind == 'r':
        argv = ['c.tle', '-j%r' % mjd, loc, '-p40,10', '-r180', '-t%d' % dt]
        jds = sorted([jd0, jd0 + dt / 86400])
    else:
        argv = ['c.tle', '-j%r,%r' % (mjd, mjd + 30.3 * dt / 86400), loc, '-s1', '-r70', '-t%d' % dt]
        jds = [jd0 + k * dt / 172800 for k in range(66)]
    ps = positions(o, jds)
    if any(p[0] for p in ps):
        return ('skipped', None)
    s = SV if kind == 'v' else SK
    deep = bool(o.state) or o.request(jd0)[0] == 'D' or o.el[5] < 7.2 and o.request(jd0)[0] != 'N'
    for t in range(2):
        r, q = s.run(argv, f), s.run(argv, f, stubs=[(1, 0, [(j,) + p[1:] for j, p in zip(jds, ps)])])
        bad = []
        try:
            a, b = named(r.json()), named(q.json())
            compare('', a, b, deep, bad)
            if r.rc != q.rc:
                bad.append('exit code %r, with reference positions %r' % (r.rc, q.rc))
            found = a.get('n_sats_found')
        except Exception as e:
            bad.append('no document: %r, exit %r/%r signal %r/%r' % (e, r.rc, q.rc, r.sig, q.sig))
            found = None
        if not bad:
            return ('ok', found)
    return ('bad', (argv, o.lines, bad[:6]))


def main(c):
    global C, EXE, REF
    C = c
    REF = c.build.harness('c12')
    cnt, samples = vlib.run_slices(c, REF, 16)
    EXE = [c.build.server('sat_skymap'), c.build.server('sat_visibility')]
    jobs = [(k, o, s, d, dt) for k, dts in (('k', (1, -5000) + ((90,) if THOROUGH else ())), ('r', (60,)), ('v', (120, 1500) + ((10, 600) if THOROUGH else ())))
            for o in range(len(ORBITS)) for s in SITES for d in DAYS for dt in dts]
    # one mean motion, two sides of the model border: the choice shows in the answer
    res = vlib.pmap(one, jobs, chunk=4, init=worker_init)
    n = {'ok': 0, 'bad': 0, 'skipped': 0}
    found = 0
    for job, (st, x) in zip(jobs, res):
        n[st] += 1
        found += bool(st == 'ok' and x)
        if st == 'bad':
            c.violation('C12:program:%s:%d:%r:%d' % (job[0], job[1], job[3], job[4]), '%s with %r: %s' % ('sat_visibility' if job[0] == 'v' else 'sat_skymap', ' '.join(x[0]), '; '.join(x[2])), {'tle': x[1], 'argv': x[0]})
    ev = cnt.get('evaluations', 0) + cnt.get('state_vector_cases', 0) + cnt.get('model_choices', 0)
    c.cov.update(states=ev + len(jobs), transitions=ev, traces_validated_against_impl=ev + len(jobs), program_runs=2 * (n['ok'] + n['bad']), program_runs_skipped=n['skipped'], program_runs_reporting=found, exhaustive=True, samples=samples, **cnt,
                 rule='product grids: near orbits (12 inclinations x 13 eccentricities x 10 mean motions x 5 drag terms x node x perigee x anomaly x 12 times), deep orbits (13 inclinations x 17 eccentricities x 22 mean motions, with every resonance class and '
                      'both sides of each class border), decaying/hyperbolic/inside-Earth orbits, state vectors in 26 directions at 6 distances x 5 speeds x 3 epochs x 12 times; each answer and return code against the '
                      'published equations; velocity against the derivative; position against the two-body orbit and the other model of the class; choice of model on both sides of 225 minutes for 11 inclinations x 14 '
                      'eccentricities x 11 type codes; both programs with %d orbits x %d instants x %d sites against themselves fed with the reference positions' % (len(ORBITS), len(DAYS), len(SITES)))
    c.assump += ['the published equations (Spacetrack Report 3 as revised by Vallado et al. 2006), written out independently in harness/refsgp4.h', 'SGP8/SDP8 are compared up to e = .95 (their Kepler iteration is limited to ten steps)',
                 'state vectors: the error of one-day Runge-Kutta steps is allowed']


vlib.main('C12', 'exploration', main)
