#!/usr/bin/env python3
"""C01: region membership of sat_skymap against a reference model, exhaustively over a grid of query shapes, metrics,
filters and satellite placements on both sides of every border (real main(), scripted positions)."""
import os, sys, itertools, math
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import vlib, model as M, sky
from vlib import THOROUGH

EPOCHS = [51544.5, 58861.5, 50449.25, 62502.75] + ([33282.5, 88069.0] if THOROUGH else [])
SITES = [(44.5, 11.3, 23.0), (-29.25627, -70.73805, 2400.0), (89.9, 179.99, 0.0), (-90.0, 0.0, 2800.0), (0.0, -180.0, 8800.0)]
DTS = [10, -60, 7200, 1] + ([86400, -2592000] if THOROUGH else [])          # 1 and radius 20 (with -H): the defaults, not given
DISTS = [1500.0, 450.0, 36000.0, 380000.0]


def sky_cases():
    """(site, mjd, haversine, ra, dec or None (zenith), radius, delta_time)"""
    ras = [0.0, 0.3, 123.4, 180.0, 359.8, 360.0]
    decs = [-90.0, -89.0, -60.0, 0.0, 45.0, 89.0, 90.0]
    rads = [0.0, 0.7, 20.0, 90.0, 179.0]
    for i, (s, e, h, r) in enumerate(itertools.product(SITES, EPOCHS, (True, False), rads)):
        for dt in DTS if THOROUGH else DTS[i % 4:i % 4 + 1]:
            for ra, d in itertools.product(ras, decs):
                yield ('sky', s, e, h, ra, d, r, dt)
            yield ('sky', s, e, h, None, None, r, dt)


def geo_cases():
    lats = [-90.0, -60.0, 0.0, 45.0, 90.0]
    lons = [0.0, 0.3, 179.8, 180.0, -0.3, -179.8, -120.0, 359.7]
    rads = [0.7, 20.0, 120.0]
    for la, lo, e, h, r in itertools.product(lats, lons, EPOCHS[:2], (True, False), rads):
        yield ('geo', (la, lo, 0.0), e, h, None, None, r, DTS[0])


def points(ra, dec, r, flat):
    """Placements: (inside?, ra, dec) around the border of radius r plus far points. Dec kept in range."""
    out = []
    m = 0.06
    for sep in sorted({max(0.0, r - m), r + m, r / 2, min(180.0, r + 40)}):
        for b in range(0, 360, 45):
            if flat:
                a = math.radians(b)
                d = dec + sep * math.cos(a)
                x = ra + sep * math.sin(a)
                if abs(d) > 90 or abs(sep * math.sin(a)) > 180:
                    continue
                out.append((x % 360, d))
            elif sep <= 180:
                out.append(sky.offset(ra, dec, b, sep))
    out.append(((ra + 180) % 360, -dec))
    out.append(((ra + 5) % 360, max(-90, min(90, dec))))
    return out


def worker_init(w):
    global SRV
    SRV = vlib.Srv(EXE, C.build.scratch(str(w)))


def sepfn(flat, a, b):
    return M.flat_sep(a, b) if flat else M.angle(M.vec(*a), M.vec(*b))


def run_case(case):
    kind, (lat, lon, ht), mjd, hav, ra, dec, rad, dt = case
    jd = mjd + M.JD_OFF
    if kind == 'geo':
        c = (lon, lat)
    elif ra is None:
        c = ((M.gmst_h(jd) * 15 + lon) % 360, lat)
    else:
        c = (ra, dec)
    pts = points(c[0], c[1], rad, not hav)
    far = (c[0], c[1] - 50) if c[1] > 0 else (c[0], c[1] + 50)
    sats, stubs, exp = [], [], []
    n = 0
    for k, p in enumerate(pts):
        # start only at p; end only at p (starting from the next point of the ring)
        for which in (0, 1):
            if kind == 'geo' and which and k % 4:
                continue
            n += 1
            q = pts[(k * 7 + 3) % len(pts)]
            a, b = (p, q) if which == 0 else (q, p)
            if kind == 'geo':
                alt = 700.0 + n
                p0 = M.geo_to_pos(a[1], a[0], alt, jd)
                p1 = M.geo_to_pos(b[1], b[0], alt, jd)
                s0, s1 = sepfn(not hav, a, c), None
                tol = 1e-4 + (2e-4 if hav else 2e-4 / max(1e-3, math.cos(math.radians(min(89.9999, abs(a[1]))))))
                if not hav and abs(a[1]) > 89.99:
                    tol = 400
                tol1 = 0
            else:
                p0 = sky.place(jd, lat, lon, ht, a[0], a[1], DISTS[n % 4])
                p1 = sky.place(jd + dt / 86400, lat, lon, ht, b[0], b[1], DISTS[n % 4])
                s0, s1 = sepfn(not hav, a, c), sepfn(not hav, b, c)
                # without -H the RA itself counts; it is undefined at a pole
                tol, tol1 = (M.prec_tol(jd, x[1]) + (0 if hav else M.prec_tol_ra(jd, x[1]) if abs(x[1]) < 89.5 else 400) + 1e-4
                             for x in (a, b))
            sats.append(('S%d' % n, n, '98067A  '))
            stubs.append((n, 0, sky.knots(jd, dt, p0, p1)))
            m = [None if abs(s - rad) <= t else s < rad for s, t in ((s0, tol),) + (((s1, tol1),) if s1 is not None else ())]
            v = True if True in m else (None if None in m else False)
            exp.append((n, v, s0, tol))
    argv = ['c.tle', '-l%r,%r,%r' % (lat, lon, ht), '-j%r' % mjd, '-n', '5000']
    if rad != 20 or not hav:
        argv.append('-r%r' % rad)
    if dt != 1:
        argv.append('-t%d' % dt)
    if hav:
        argv.append('-H')
    if kind == 'geo':
        argv.append('-E')
    elif ra is not None:
        argv.append('-p%r,%r' % (ra, dec))
    files = {'c.tle': sky.cat_text(sats)}
    bad, got = judge(argv, files, stubs, exp)
    if bad:
        bad2, _ = judge(argv, files, stubs, exp)
        bad = bad if bad2 else []
    nin = sum(1 for e in exp if e[1])
    nout = sum(1 for e in exp if e[1] is False)
    return case, bad, len(exp), nin, nout, len(got) if got is not None else -1, argv


def judge(argv, files, stubs, exp):
    r = SRV.run(argv, files, stubs)
    try:
        doc = r.json()
        ents = sky.entries(doc)
    except Exception as e:
        return [('output', 'no JSON: %s rc=%s sig=%s' % (e, r.rc, r.sig))], None
    if doc.get('status') != 0 or r.rc != 0:
        return [('status', 'status %r rc %r: %s' % (doc.get('status'), r.rc, doc.get('errmsg')))], None
    got = {e['norad_n']: e for e in ents}
    bad = []
    for n, v, s0, tol in exp:
        if v is True and n not in got:
            bad.append(('missing', 'satellite %d (start separation %.4f) missing' % (n, s0)))
        elif v is False and n in got:
            bad.append(('extra', 'satellite %d (start separation %.4f) returned, reported separation %r' % (n, s0, got[n]['data'][5])))
        if n in got and abs(got[n]['data'][5] - s0) > tol + 1e-4:
            bad.append(('separation', 'satellite %d: separation %r, expected %.4f +- %.4f' % (n, got[n]['data'][5], s0, tol)))
    return bad, got


# ------------------------------------------------------------------ filters
DT = 10


def filter_cases():
    for a in (None, '400,800', '800,400', '400', '0,399', '2000,36000', '-100,36000', '36000,-100'):
        for v in (False, True):
            for mode in ('H', 'flat', 'E', 'EH', 'pH', 'pflat'):
                for i in (False, True):
                    for e in EPOCHS[:2]:
                        yield a, v, mode, i, e


def alt_range(a):
    if a is None:
        return None
    p = [float(x) for x in a.split(',')]
    lo, hi = p[0], (p[1] if len(p) > 1 else 1e32)
    return (min(lo, hi), max(lo, hi))


def run_filter(fc):
    a, v, mode, info, mjd = fc
    jd = mjd + M.JD_OFF
    lat, lon, ht = 10.0, 20.0, 0.0
    rad = 60.0
    sun = M.sun_radec(jd)
    pra = round((sun[0] + 130) % 360, 3)
    sats, stubs, exp = [], [], []
    n = 0
    rng = alt_range(a)
    # all around the Earth in the Sun-antisun plane, at altitudes on both sides of every filter edge
    for alt in (200.0, 398.5, 399.5, 400.5, 799.5, 800.5, 1999.0, 2001.0, 35990.0, 36010.0):
        for phi in range(0, 360, 20):
            la = 20 * math.sin(math.radians(phi))
            n += 1
            p = M.geo_to_pos(la, (sun[0] + phi) % 360, alt, jd)
            sats.append(('F%d' % n, n, '98067A  '))
            stubs.append((n, 0, sky.knots(jd, DT, p)))
            if mode[0] == 'E':
                g = M.geoloc(p, jd)
                s = sepfn(mode == 'E', (g[1], g[0]), (lon, lat))
                tol = 0.01
                sep = [s]
            else:
                (x, y, d), _ = sky.topo(jd, lat, lon, ht, p)
                (x1, y1, d1), _ = sky.topo(jd + DT / 86400, lat, lon, ht, p)
                c = (pra, -35.0) if mode[0] == 'p' else ((M.gmst_h(jd) * 15 + lon) % 360, lat)
                sep = [sepfn(mode[-1] == 't', (x, y), c), sepfn(mode[-1] == 't', (x1, y1), c)]
                tol = M.prec_tol(jd, y) + M.prec_tol_ra(jd, y) + M.prec_tol_ra(jd, y1) + 1e-3
            m = [None if abs(s - rad) <= tol else s < rad for s in sep]
            memb = True if True in m else (None if None in m else False)
            if rng and not rng[0] <= alt <= rng[1]:
                memb = False
            mg, u = M.shadow_margin(p, jd), M.shadow_uncert(p)
            lit = None if abs(mg) < u + 1 else mg > 0
            if v and memb is not False and lit is not True:
                memb = False if lit is False else None
            exp.append((n, memb, lit))
    argv = ['c.tle', '-l%r,%r,%r' % (lat, lon, ht), '-j%r' % mjd, '-r%r' % rad, '-t%d' % DT, '-n', '5000']
    argv += {'H': ['-H'], 'flat': [], 'E': ['-E'], 'EH': ['-E', '-H'],
             'pH': ['-H', '-p%r,-35' % pra], 'pflat': ['-p%r,-35' % pra]}[mode]
    if a:
        argv += ['-a' + a] if not a.startswith('-') else ['-a', a]
    if v:
        argv.append('-V')
    if info:
        argv.append('-I')
    files = {'c.tle': sky.cat_text(sats)}

    def once():
        r = SRV.run(argv, files, stubs)
        try:
            doc = r.json()
        except Exception as e:
            return [('output', 'no JSON: %s' % e)], 0
        if doc['status'] != 0:
            return [('status', 'status %r' % doc['status'])], 0
        bad = []
        lo = sum(1 for e in exp if e[1])
        hi = sum(1 for e in exp if e[1] is not False)
        if not lo <= doc['n_sats_found'] <= hi:
            bad.append(('filter-count', 'n_sats_found %d not in [%d, %d]' % (doc['n_sats_found'], lo, hi)))
        if not info:
            got = {e['norad_n']: e for e in sky.entries(doc)}
            for n, memb, lit in exp:
                if memb is True and n not in got or memb is False and n in got:
                    bad.append(('filter', 'satellite %d %s' % (n, 'missing' if memb else 'returned')))
                if n in got and lit is not None and got[n]['data'][8] != int(lit):
                    bad.append(('sunlit', 'satellite %d flag %r' % (n, got[n]['data'][8])))
        return bad, doc['n_sats_found']
    bad, got = once()
    if bad and not once()[0]:
        bad = []
    return fc, bad, len(exp), sum(1 for e in exp if e[1]), sum(1 for e in exp if e[1] is False), got, argv


# ------------------------------------------------------------------ filters on satellites that move
def move_cases():
    for site in SITES[:2]:
        for day in (58861.0, 59030.0):
            for noon in (True, False):
                for dt in (10, -60, 3600):
                    for mode in ('H', 'flat', 'E', 'EH', 'pH'):
                        for a in (None, '400,800', '800,400'):
                            for v in (False, True):
                                yield site, day, noon, dt, mode, a, v


def sunmost(site, day, noon):
    g = [(M.altaz(*M.sun_radec(j), M.gmst_h(j) + site[1] / 15, site[0])[0], j) for j in (day + M.JD_OFF + k / 48 for k in range(48))]
    return (max(g) if noon else min(g))[1] - M.JD_OFF


def run_move(mc):
    site, day, noon, dt, mode, a, v = mc
    mjd = sunmost(site, day, noon)
    jd = mjd + M.JD_OFF
    jd1 = jd + dt / 86400
    lat, lon, ht = site
    rad = 20.0
    zen = [((M.gmst_h(j) * 15 + lon) % 360, lat) for j in (jd, jd1)]
    c = (lon, lat) if mode[0] == 'E' else zen[0]
    pc = (round(c[0], 4), round(c[1], 4))
    rng = alt_range(a)
    if mode[0] == 'p':
        c = pc
    sats, stubs, exp = [], [], []
    n = 0
    for i0, i1, h0, h1, b in itertools.product((True, False), (True, False), (600.0, 1500.0), (600.0, 1500.0), (0, 1, 2, 3)):
        ps = []
        for inside, h, j, z in ((i0, h0, jd, zen[0]), (i1, h1, jd1, zen[0] if mode[0] != 'E' else zen[1])):
            ra, dec = sky.offset(z[0], z[1], 45 + 90 * b, 4 if inside else 38)
            d = h / math.cos(math.radians(4 if inside else 36))
            ps.append(sky.place(j, lat, lon, ht, ra, dec, d))
        n += 1
        sats.append(('M%d' % n, n, '98067A  '))
        stubs.append((n, 0, sky.knots(jd, dt, *ps)))
        tol = 0.3
        if mode[0] == 'E':
            g = M.geoloc(ps[0], jd)
            sep = [sepfn(mode == 'E', (g[1], g[0]), (lon, lat))]
        else:
            sep = [sepfn(mode == 'flat', sky.topo(j, lat, lon, ht, p)[0][:2], c) for j, p in ((jd, ps[0]), (jd1, ps[1]))]
        m = [None if abs(x - rad) <= tol else x < rad for x in sep]
        memb = True if True in m else (None if None in m else False)
        al = M.geoloc(ps[0], jd)[2]
        if rng and not rng[0] <= al <= rng[1]:
            memb = False
        lits = []
        for p in ps:
            mg = M.shadow_margin(p, jd)
            lits.append(None if abs(mg) < M.shadow_uncert(p) + 1 else mg > 0)
        lit = lits[0] if lits[0] == lits[1] else None
        if v and memb is not False and lit is not True:
            memb = False if lit is False else None
        exp.append((n, memb, sep[0], tol))
    argv = ['c.tle', '-l%r,%r,%r' % site, '-j%r' % mjd, '-t%d' % dt, '-n', '5000']
    argv += {'H': ['-H'], 'flat': [], 'E': ['-E'], 'EH': ['-E', '-H'], 'pH': ['-H', '-p%r,%r' % pc]}[mode]
    argv += (['-a' + a] if a else []) + (['-V'] if v else [])
    files = {'c.tle': sky.cat_text(sats)}
    bad, got = judge(argv, files, stubs, exp)
    if bad and not judge(argv, files, stubs, exp)[0]:
        bad = []
    return mc, bad, len(exp), sum(1 for e in exp if e[1]), sum(1 for e in exp if e[1] is False), len(got) if got is not None else -1, argv


def dispatch(c):
    if c[0] == 'move':
        return run_move(c[1])
    return run_filter(c[1]) if c[0] == 'filter' else run_case(c)


def main(c):
    global C, EXE
    C = c
    EXE = c.build.server('sat_skymap')
    cases = list(sky_cases()) + list(geo_cases()) + [('filter', f) for f in filter_cases()] + [('move', f) for f in move_cases()]
    res = vlib.pmap(dispatch, cases, chunk=8, init=worker_init)
    ev = nin = nout = 0
    seen = set()
    for case, bad, n, a, b, got, argv in res:
        ev += n
        nin += a
        nout += b
        seen.add((a, b, got))
        for key, text in bad[:3]:
            c.violation('C01:%s:%s' % (key, ' '.join(argv[1:])), text + '  [%s]' % ' '.join(argv), {'argv': argv, 'case': repr(case)})
    c.cov.update(evaluations=ev, distinct_nontrivial=nin + nout, queries=len(cases), decided_inside=nin, decided_outside=nout,
                 undecided_border=ev - nin - nout, distinct_outcomes=len(seen), exhaustive=True,
                 rule='full product of site x epoch x metric x centre (RA/Dec or site, incl. 0/360, poles) x radius (x delta_time in thorough, cycled in quick); per query 8 bearings x '
                      '4 separations (radius-0.06, radius+0.06, half, +40 deg) placed at start or at end epoch; filters: 8 altitude ranges x -V x '
                      'metric x -I over 180 satellites around the Earth, and filters over satellites that enter or leave the region and the altitude range during delta_time; near and deep orbits in turn. Non-trivial: membership decided by the model outside its tolerance band',
                 samples=[res[0][6], res[len(res) // 2][6], res[-1][6]])
    c.assump += ['positions scripted through the SGP4/SDP4 link seam (orbit models checked by C11, C12)',
                 'satellites closer to the border than the tolerance of the documented approximate precession are not judged']


vlib.main('C01', 'exploration', main)
