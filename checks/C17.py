#!/usr/bin/env python3
"""C17: solar position over a century (library), reported Sun data of both tools over epochs x sites, and the sunlit decision of both
tools for satellites all around the Earth incl. both sides of the shadow border (real main(), scripted positions)."""
import os, sys, itertools, math
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import vlib, model as M, sky, report as R
from vlib import THOROUGH

SITES = [(44.5, 11.3, 23.0), (-29.25627, -70.73805, 2400.0), (0.0, 179.99, 0.0), (89.9, -120.0, 0.0), (-90.0, 0.0, 2800.0)]


def mjd(y, m, d):
    import datetime
    return datetime.date(y, m, d).toordinal() - 678576


def epochs():
    ys = range(1950, 2051, 1 if THOROUGH else 4)
    return [mjd(y, m, 21) + 0.25 * ((y // 4 + m) % 4) + 0.01 * m for y in ys for m in range(1, 13)]


def worker_init(w):
    global SK, SV
    d = C.build.scratch(str(w))
    SK, SV = vlib.Srv(EXE1, d + '/k'), vlib.Srv(EXE2, d + '/v')


# ------------------------------------------------------------------ reported Sun data
FILE = sky.cat_text([('X', 1, '98067A  ')])


def run_sun(case):
    mj, site = case
    jd = mj + M.JD_OFF
    bad, n = [], 0
    lst = M.gmst_h(jd) * 15 + site[1]
    # zenith satellite on the sunward side is not needed: put it over the site, 2e5 km up (always sunlit unless in the shadow cone line)
    up = sky.place(jd, *site, *M.radec(M.vec(lst, site[0])), 2e5, j2000=False)
    for tool in ('k', 'v', 'w'):
        if tool == 'k':
            argv = ['c.tle', '-l%r,%r,%r' % site, '-j%r' % mj]
        else:
            argv = ['c.tle', '-l%r,%r,%r' % site, '-j%r,%r' % (mj, mj), '-s1'] + (['-r', '-1'] if tool == 'w' else [])
        srv = SK if tool == 'k' else SV

        def once():
            r = srv.run(argv, {'c.tle': FILE}, [(1, 0, [(jd,) + up])])
            try:
                doc = r.json()
            except Exception as e:
                return [('output', 'no JSON: %s' % e)], 0
            if doc['status'] != 0:
                return [('status', '%r %r' % (doc['status'], doc['errmsg']))], 0
            suns = [doc['sun']] if 'sun' in doc else [v for k, v in doc['satellite'].items() if k.startswith('sun_')]
            b = [x for s in suns for x in R.judge_sun(s, jd, site)]
            if tool == 'v' and doc['n_sats_found'] and len(suns) != 4:
                b.append(('sun-missing', '%d Sun objects' % len(suns)))
            return b, len(suns)
        b, k = once()
        if b and not once()[0]:
            b = []
        n += k
        bad += [(x, t, tool, argv) for x, t in b]
    return bad, n, argv


# ------------------------------------------------------------------ sunlit
def shadow_points(jd):
    """Positions around the Earth relative to the Sun direction: angle from the antisolar axis x azimuth x radius, and both sides of
    the cylinder border ahead of and behind the Earth."""
    s = M.vec(*M.sun_radec(jd))
    a = (-s[1], s[0], 0.0)
    na = math.hypot(*a)
    a = tuple(x / na for x in a)
    b = (s[1] * a[2] - s[2] * a[1], s[2] * a[0] - s[0] * a[2], s[0] * a[1] - s[1] * a[0])
    out = []
    rads = [6379.0, 6700.0, 7400.0, 12000.0, 26600.0, 42164.0, 380000.0]
    az = range(0, 360, 15 if THOROUGH else 45)
    for r in rads:
        for phi in az:
            w = tuple(math.cos(math.radians(phi)) * a[i] + math.sin(math.radians(phi)) * b[i] for i in range(3))
            for psi in range(0, 181, 3 if THOROUGH else 6):
                c, sn = math.cos(math.radians(psi)), math.sin(math.radians(psi))
                out.append(tuple(r * (c * s[i] + sn * w[i]) for i in range(3)))
            for d in (-40.0, -8.0, 8.0, 40.0):
                p = M.ERAD + d
                if p < r:
                    q = math.sqrt(r * r - p * p)
                    for sg in (1, -1):
                        out.append(tuple(sg * q * s[i] + p * w[i] for i in range(3)))
    return out


def lit(pos, jd):
    mg = M.shadow_margin(pos, jd)
    if mg is None:
        return None
    return None if abs(mg) < M.shadow_uncert(pos) else mg > 0


def run_lit(case):
    mj, site, vis = case
    jd = mj + M.JD_OFF
    pts = [(p, lit(p, jd)) for p in shadow_points(jd)]
    und = sum(1 for p in pts if p[1] is None)
    bad = []
    if not vis:
        files = {'c.tle': sky.cat_text([(None, k + 1, '98067A  ') for k in range(len(pts))])}
        stubs = [(k + 1, 0, [(jd,) + p]) for k, (p, _) in enumerate(pts)]
        argv = ['c.tle', '-l%r,%r,%r' % site, '-j%r' % mj, '-r360', '-H', '-n100000']

        def once(v):
            r = SK.run(argv + v, files, stubs)
            try:
                doc = r.json()
                ents = sky.entries(doc)
            except Exception as e:
                return [('output', 'no JSON: %s' % e)]
            b = []
            got = {e['norad_n']: e['data'][8] for e in ents}
            for k, (p, w) in enumerate(pts):
                g = got.get(k + 1, 0 if v else None)
                if w is not None and g != int(w):
                    b.append(('sunlit', 'satellite at %.1f %.1f %.1f km (sun line passes %.1f km outside the Earth): flag %r' % (p + (M.shadow_margin(p, jd), g))))
            if doc['n_sunlit_sats'] != sum(got.values()):
                b.append(('count', 'n_sunlit_sats %r' % doc['n_sunlit_sats']))
            return b
        for v in ([], ['-V']):
            b = once(v)
            if b and not once(v):
                b = []
            bad += [(x, t, 'k', argv + v) for x, t in b]
        return bad, 2 * len(pts), und, argv
    files = {'c.tle': FILE}
    argv = ['c.tle', '-l%r,%r,%r' % site, '-j%r,%r' % (mj, mj), '-s1', '-r180']
    for p, w in pts:
        if w is None:
            continue

        def once1():
            r = SV.run(argv, files, [(1, 0, [(jd,) + p])])
            try:
                doc = r.json()
            except Exception as e:
                return ('output', 'no JSON: %s' % e)
            if doc['n_sats_found'] != int(w):
                return ('sunlit', 'satellite at %.1f %.1f %.1f km (sun line passes %.1f km outside the Earth): n_sats_found %r' % (p + (M.shadow_margin(p, jd), doc['n_sats_found'])))
        b = once1()
        if b and once1():
            bad.append(b + ('v', argv))
    return bad, len(pts) - und, und, argv


def dispatch(c):
    return (c[0],) + (run_sun(c[1]) if c[0] == 'sun' else run_lit(c[1]))


def main(c):
    global C, EXE1, EXE2
    C = c
    cnt, samples = vlib.run_slices(c, c.build.harness('c17'))
    EXE1, EXE2 = c.build.server('sat_skymap'), c.build.server('sat_visibility')
    eps = epochs()
    cases = [('sun', (e, s)) for e in eps for s in SITES]
    le = [mjd(y, m, 20) + 0.37 * m for y, m in itertools.product(range(1960, 2050, 4 if THOROUGH else 30), range(1, 13))]
    cases += [('lit', (e, SITES[i % 2], False)) for i, e in enumerate(le)]
    cases += [('lit', (e, SITES[i % 2], True)) for i, e in enumerate(le[::3 if THOROUGH else 12])]
    res = vlib.pmap(dispatch, cases, chunk=4, init=worker_init)
    nsun = nlit = und = 0
    for r in res:
        if r[0] == 'sun':
            nsun += r[2]
        else:
            nlit += r[2]
            und += r[3]
        seen = set()
        for key, text, tool, argv in r[1]:
            if (key, tool) not in seen:
                seen.add((key, tool))
                c.violation('C17:%s:%s:%s' % (key, tool, ' '.join(argv[1:])), text + '  [%s]' % ' '.join(argv), {'argv': argv, 'tool': tool})
    c.cov.update(evaluations=cnt.get('instants', 0) + nsun + nlit, distinct_nontrivial=cnt.get('instants', 0) + nsun + nlit - und, solar_instants=cnt.get('instants', 0),
                 sun_objects=nsun, sunlit_positions=nlit, undecided_border=und, exhaustive=True,
                 rule='Sun position at every hour of 1950-2050; reported Sun data at 12 epochs of every fourth year x 5 sites x both tools (x window / no window); '
                      'sunlit for 7 radii x 8 azimuths x 31 angles from the Sun plus 4 distances from the shadow cylinder on both sides of the Earth, 12 epochs of '
                      'several years, both tools. Non-trivial: farther from the shadow border than 0.025 deg of Sun position allows',
                 samples=samples[:4] + [res[0][-1], res[-1][-1]])
    c.assump += ['positions scripted through the SGP4/SDP4 link seam', 'the Earth is the sphere of equatorial radius, the Sun a point at 1 au (as the property says)',
                 'reference: Meeus low-accuracy theory (0.01 deg)']


vlib.main('C17', 'exploration', main)
