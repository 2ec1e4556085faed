#!/usr/bin/env python3
"""C18: every number of a returned sat_skymap entry against an independent model, over a product grid of directions, motions,
sites, epochs and time steps, and over a grid of geodetic positions (real main(), scripted positions)."""
import os, sys, itertools, math
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import vlib, model as M, sky, report as R
from vlib import THOROUGH

RAS = [0.0, 1e-3, 0.3, 45.0, 90.0, 179.99, 180.01, 225.0, 270.0, 315.0, 359.7, 359.999]
DECS = [-90.0, -89.999, -89.9, -66.0, -41.9, -30.0, -0.001, 0.0, 30.0, 41.7, 66.0, 89.0, 89.99, 90.0]
SIZES = [0.0, 0.004, 0.6, 8.0, 75.0, 179.0]
BEARINGS = range(0, 360, 45)
if THOROUGH:
    RAS = sorted(set(RAS + [x * 15.0 for x in range(24)] + [89.999, 90.001, 269.999, 359.9, 0.05]))
    DECS = sorted(set(DECS + [x * 10.0 for x in range(-8, 9)] + [-89.5, 89.5, 41.8103, -41.8103, 89.9]))
    BEARINGS = [b * 15 for b in range(24)]
SITES = [(44.5, 11.3, 23.0), (-29.25627, -70.73805, 2400.0)] + [(90.0, 0.0, 2800.0), (-90.0, 120.0, 0.0), (0.0, 180.0, 0.0)] + ([(10.0, -179.99, 8000.0)] if THOROUGH else [])
EPOCHS = [51544.5, 58861.5, 62502.75] + ([50449.25, 33282.5] if THOROUGH else [])
DTS = [10, -60, 1, 7200, -86400, 1000000000] + ([2592000] if THOROUGH else [])
DISTS = [450.0, 2500.0, 36000.0]


def sky_cases():
    """One query per (site, epoch, dt, mode, RA block): all Dec x size x bearing."""
    for s, e, dt in itertools.product(SITES, EPOCHS, DTS):
        for ra in RAS:
            yield ('sky', s, e, dt, ra)
    yield from (('sky', SITES[0], e, 0, ra) for e in EPOCHS for ra in RAS[::3])


def geo_cases():
    for s, e in itertools.product(SITES[:2], EPOCHS):
        for mode in ('-G', '-a-1e6,1e9', '-E'):
            yield ('geo', s, e, mode)
        yield ('one', s, e, '')


LATS = [-90.0, -89.999, -89.9, -60.0, -45.05, -0.001, 0.0, 30.0, 45.1, 60.0, 89.0, 89.99, 90.0]
LONS = [-180.0, -179.999, -120.0, -90.0, -0.001, 0.0, 0.001, 60.0, 90.0, 150.0, 179.999]
ALTS = [120.0, 780.0, 36000.0, 380000.0]


def worker_init(w):
    global SRV
    SRV = vlib.Srv(EXE, C.build.scratch(str(w)))


def j2000(jd, site, pos):
    o = M.observer(jd, *site)
    v = tuple(pos[i] - o[i] for i in range(3))
    return M.radec(M.to_j2000(jd, v)) + (math.sqrt(sum(x * x for x in v)),)


def judge_entry(e, jd, dt, site, p0, p1, gmst, geoloc, centre, geo_ref):
    """List of (field, text) for one entry."""
    bad = []
    d = e['data']
    if len(d) != 10:
        return [('data', '%d fields' % len(d))]
    a = j2000(jd, site, p0)
    b = j2000(jd + dt / 86400, site, p1)
    for nm, ra, dec, m, t in (('start', d[0], d[1], a, jd), ('end', d[2], d[3], b, jd + dt / 86400)):
        if not (0 <= ra <= 360 and -90 <= dec <= 90):
            bad.append((nm + '-range', '%s RA %r Dec %r out of range' % (nm, ra, dec)))
            continue
        tol = M.prec_tol(t, m[1]) + 1e-4
        if t is not jd:
            tol += abs(dt) * 2e-11         # rounding of the epoch (observer's rotation)
        x = M.angle(M.vec(ra, dec), M.vec(m[0], m[1]))
        if x > tol:
            bad.append((nm, '%s position %.4f %.4f, model %.4f %.4f (off by %.5f deg, tolerance %.5f)' % (nm, ra, dec, m[0], m[1], x, tol)))
    if abs(d[4] - a[2]) > 0.006 + 1e-9 * a[2]:
        bad.append(('distance', 'distance %r, model %.3f' % (d[4], a[2])))
    # motion between the printed directions (4 decimals)
    s = M.angle(M.vec(d[0], d[1]), M.vec(d[2], d[3]))
    if dt == 0:
        if d[7] != 0:
            bad.append(('speed', 'speed %r with delta_time 0' % d[7]))
    elif abs(d[7] * abs(dt) / 60 - s) > 2.1e-4 + 6e-4 * abs(dt) / 60:
        bad.append(('speed', 'speed %r, motion of %.4f deg in %r s' % (d[7], s, dt)))
    bad += R.judge_pa(d[6], (d[0], d[1]), (d[2], d[3]))
    # pixel of the start direction (printed with 4 decimals)
    hp = {M.ang2pix_nest(8, x, max(-90.0, min(90.0, y))) for x in (d[0] - 6e-5, d[0], d[0] + 6e-5) for y in (d[1] - 6e-5, d[1], d[1] + 6e-5)}
    if d[9] not in hp:
        bad.append(('hpx', 'pixel %r, direction %.4f %.4f lies in %s' % (d[9], d[0], d[1], sorted(hp))))
    if geoloc:
        g = e.get('geoloc')
        if g is None:
            return bad + [('geoloc', 'no geoloc')]
        bad += R.judge_geoloc(g, p0, jd)
    elif 'geoloc' in e:
        bad.append(('geoloc', 'geoloc not requested'))
    return bad


def run_case(case):
    kind, site, mjd, x = case[:4]
    jd = mjd + M.JD_OFF
    geoloc = kind != 'sky'
    argvs, sats, stubs, truth = [], [], [], {}
    dt = x if kind == 'sky' else 20
    if kind == 'sky':
        ra = case[4]
        jd1 = jd + dt / 86400
        n = 0
        for dec, size in itertools.product(DECS, SIZES):
            for b in (BEARINGS if size else [0]):
                n += 1
                q = sky.offset(ra, dec, b, size)
                p0 = sky.place(jd, *site, ra, dec, DISTS[n % 3])
                p1 = sky.place(jd1, *site, q[0], q[1], DISTS[n % 3]) if dt else p0
                truth[n] = (p0, p1)
        argvs = [['c.tle', '-r360', '-H', '-n100000']]
    else:
        n = 0
        for la, lo, al in itertools.product(LATS, LONS, ALTS):
            n += 1
            truth[n] = (M.geo_to_pos(la, lo, al, jd), M.geo_to_pos(max(-90, la - 0.7), lo + 0.9, al, jd + dt / 86400))
        if kind == 'geo':
            argvs = [['c.tle', x, '-r1000', '-n100000'] + (['-H'] if x == '-G' else [])]
        else:
            argvs = [['c.tle', '-s%d' % k] for k in range(1, n + 1, 3)]
    for k, (p0, p1) in truth.items():
        sats.append((None, k, '98067A  '))
        stubs.append((k, 0, sky.knots(jd, dt, p0, p1)))
    files = {'c.tle': sky.cat_text(sats)}
    common = ['-l%r,%r,%r' % site, '-j%r' % mjd, '-t%d' % dt]
    allbad, n = [], 0
    for av in argvs:
        bad, k, out = judge(av + common, files, stubs, truth, jd, dt, site, geoloc)
        if bad:
            bad2 = judge(av + common, files, stubs, truth, jd, dt, site, geoloc)[0]
            bad = [b for b in bad if b in bad2]
        n += k
        allbad += [(key, t, av + common) for key, t in bad]
    return case, allbad, n, argvs[0] + common


def judge(argv, files, stubs, truth, jd, dt, site, geoloc):
    r = SRV.run(argv, files, stubs)
    try:
        doc = r.json()
        ents = sky.entries(doc)
    except Exception as e:
        return [('output', 'no JSON: %s rc=%s sig=%s' % (e, r.rc, r.sig))], 0, ''
    if doc.get('status') != 0 or r.rc != 0:
        return [('status', 'status %r rc %r: %s' % (doc.get('status'), r.rc, doc.get('errmsg')))], 0, ''
    bad = []
    one = next((int(a[2:]) for a in argv if a.startswith('-s')), None)
    want = {one} if one else set(truth)
    if {e['norad_n'] for e in ents} != want:
        bad.append(('entries', '%d entries, expected %d' % (len(ents), len(want))))
    for e in ents:
        p0, p1 = truth[e['norad_n']]
        for f, t in judge_entry(e, jd, dt, site, p0, p1, None, geoloc, None, None):
            bad.append((f, 'satellite %d: %s' % (e['norad_n'], t)))
    return bad, len(ents), ''


def main(c):
    global C, EXE
    C = c
    EXE = c.build.server('sat_skymap')
    cases = list(sky_cases()) + list(geo_cases())
    res = vlib.pmap(run_case, cases, chunk=1, init=worker_init)
    ev = 0
    for case, bad, n, av in res:
        ev += n
        seen = set()
        for key, text, argv in bad:
            if key in seen:
                continue
            seen.add(key)
            c.violation('C18:%s:%s' % (key, ' '.join(argv[1:])), text + '  [%s]' % ' '.join(argv), {'argv': argv, 'case': repr(case)})
    c.cov.update(evaluations=ev, distinct_nontrivial=ev, queries=len(cases), exhaustive=True,
                 rule='full product of site x epoch x delta_time x start RA (0/180/360 crossings) x start Dec (poles, |z|=2/3 borders, equator) x motion size '
                      '(0..179 deg) x 8 bearings; full product of geodetic latitude x longitude x altitude in -G, -a, -E and -s modes. Every entry is a distinct '
                      'satellite position; all fields of it are judged',
                 samples=[res[0][3], res[len(res) // 2][3], res[-1][3]])
    c.assump += ['positions scripted through the SGP4/SDP4 link seam (orbit models checked by C11, C12)',
                 'a printed RA may round to 360.0000; PA and speed are judged against the printed directions (4 decimals), directions against the model '
                 'within the error of the documented approximate precession']


vlib.main('C18', 'exploration', main)
