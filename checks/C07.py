#!/usr/bin/env python3
"""C07: sat_visibility's pass state machine: every history of samples over (inside/outside radius) x (lit/shadow) x (nearer/farther from
the zenith) up to a depth, replayed on the real main() with scripted positions; every reported event judged against the model."""
import os, sys, itertools, math
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import vlib, model as M, sky, report as R
from vlib import THOROUGH

LETTERS = 'OPSAB'       # outside lit, outside in shadow, inside in shadow, inside lit near the zenith, inside lit farther
NOM = {'O': (1.3, 9000.0, True), 'P': (1.25, 900.0, False), 'S': (0.1, 500.0, False), 'A': (0.2, 9000.0, True), 'B': (0.6, 9500.0, True)}


def night(site, mjd, alt=-40.0):
    """First quarter hour after mjd when the Sun is below alt."""
    for k in range(200):
        jd = mjd + k / 96 + M.JD_OFF
        ra, dec = M.sun_radec(jd)
        if M.altaz(ra, dec, M.gmst_h(jd) + site[1] / 15, site[0])[0] < alt:
            return mjd + k / 96 + 0.00013
    raise SystemExit(3)


# (site, day, radius or None, dt or None, tail beyond the last sample in steps, extra arguments, depth)
def configs():
    a, b = (44.5, 11.3, 23.0), (-29.25627, -70.73805, 2400.0)
    out = [(a, 58861.0, 45.0, 30, 0.05, (), 6, 'j'), (b, 59020.0, 20.0, 1, 0.5, (), 5, 'j'), (b, 59020.0, None, 600, 0.95, (), 5, 'd'),
           (a, 51544.0, 45.0, 7, 0.3, ('-a', '-1e6,1e9'), 5, 'd'), (b, 58900.0, 50.0, None, 0.4, (), 4, 'j')]
    if THOROUGH:
        out = [c[:6] + (7 if i == 0 else 6,) + c[7:] for i, c in enumerate(out)]
        out += [((10.0, 179.99, 0.0), 62502.0, 30.0, 60, 0.5, (), 5, 'j'), ((-60.0, -0.01, 100.0), 62600.0, 45.0, 300, 0.5, (), 5, 'd')]
    return out


def position(site, jd, radius, letter, k):
    """Position of the sample in the state wanted: the first azimuth that gives it."""
    f, dist, lit = NOM[letter]
    lst = M.gmst_h(jd) * 15 + site[1]
    zd = radius * f + (0.3 * ((3 * k) % 5) if letter in 'AB' else 0.0)
    for i in range(24):
        az = (k * 50 + 17 + i * 15) % 360
        for dd in (dist, dist * 3, dist * 0.7):
            ra, dec = sky.offset(lst, site[0], az, zd)
            p = sky.place(jd, *site, ra, dec, dd + 11 * k, j2000=False)
            m = M.shadow_margin(p, jd)
            if m is not None and abs(m) > M.shadow_uncert(p) + 5 and (m > 0) == lit:
                return p
            if letter == 'O' and (m is None or True) and f * radius > 89:
                return p
    return None


def worker_init(w):
    global SRV
    SRV = vlib.Srv(EXE, C.build.scratch(str(w)))


FILE, FARFILE = ('PASSER\n%s\n%s\n' % vlib.tle('00007', '98067A  ', n=n) for n in (15.5, 2.0))       # near and deep orbit


def interp(kn, jd):
    if len(kn) == 1 or jd <= kn[0][0]:
        return kn[0][1:]
    for a, b in zip(kn, kn[1:]):
        if jd <= b[0]:
            f = (jd - a[0]) / (b[0] - a[0])
            return tuple(a[i] + f * (b[i] - a[i]) for i in (1, 2, 3))
    return kn[-1][1:]


def window(h):
    """(start, end, max candidates) of the first sunlit pass of history h, or None."""
    i = next((k for k, s in enumerate(h) if s in 'AB'), None)
    if i is None:
        return None
    e = next((k for k in range(i, len(h)) if h[k] not in 'AB'), None)
    return i, (len(h) - 1 if e is None else e), range(i, len(h) if e is None else e)


def iso(mjd):
    d = math.floor(mjd)
    import datetime
    s = round((mjd - d) * 86400, 3)
    return datetime.datetime.fromordinal(d + 678576) + datetime.timedelta(seconds=s)


def judge_event(o, name, jd, dt, site, kn, radius, slack):
    """One event (start, end, mid, max) at true time jd."""
    import datetime
    bad = []
    s = o['sat_' + name]
    try:
        t = datetime.datetime.fromisoformat(s['Date'])
    except Exception:
        return [('date', 'Date %r' % s['Date'])]
    mj = jd - M.JD_OFF
    if abs((t - iso(mj)).total_seconds()) > 0.51:
        bad.append(('date', '%s Date %s, expected %s' % (name, s['Date'], iso(mj))))
    if abs(s['MJD'] - mj) > 0.6e-5:
        bad.append(('mjd', '%s MJD %.5f, expected %.6f' % (name, s['MJD'], mj)))
    p0, p1 = interp(kn, jd), interp(kn, jd + dt / 86400)
    ob = M.observer(jd, *site)
    v = tuple(p0[i] - ob[i] for i in range(3))
    d = math.sqrt(sum(x * x for x in v))
    rd = M.radec(v)
    o1 = M.observer(jd + dt / 86400, *site)
    rd1 = M.radec(tuple(p1[i] - o1[i] for i in range(3)))
    sl1 = math.degrees(slack / min(d, math.dist(p1, o1)))
    lst = M.gmst_h(jd) + site[1] / 15
    # slack: km of position uncertainty (rounding of the sample time on a moving stretch)
    sl = math.degrees(slack / d)
    if abs(s['Distance'] - d) > 0.006 + slack:
        bad.append(('distance', '%s distance %r, expected %.3f' % (name, s['Distance'], d)))
    j = M.radec(M.to_j2000(jd, v))
    if not (0 <= s['ra'] <= 360 and -90 <= s['dec'] <= 90):
        bad.append(('range', '%s RA %r Dec %r' % (name, s['ra'], s['dec'])))
    if M.angle(M.vec(s['ra'], s['dec']), M.vec(*j)) > M.prec_tol(jd, j[1]) + 2e-4 + sl + dt * 2e-8:
        bad.append(('position', '%s RA/Dec %r %r, expected %.4f %.4f' % (name, s['ra'], s['dec'], j[0], j[1])))
    alt, az, _ = M.altaz(rd[0], rd[1], lst, site[0])
    c = math.cos(math.radians(alt))
    if abs(s['alt'] - alt) > 3e-4 + sl:
        bad.append(('alt', '%s altitude %r, expected %.4f' % (name, s['alt'], alt)))
    if not 0 <= s['az'] <= 360 or M.adiff(s['az'], az) * c > 3e-4 + sl:
        bad.append(('az', '%s azimuth %r, expected %.4f' % (name, s['az'], az)))
    sep = M.angle(M.vec(*rd), M.vec(lst * 15, site[0]))
    if abs(s['Separation'] - sep) > 3e-4 + sl:
        bad.append(('separation', '%s separation %r, expected %.4f' % (name, s['Separation'], sep)))
    m = M.angle(M.vec(*rd), M.vec(*rd1))
    if abs(s['Speed'] - m * 60 / dt) > 6e-4 + (2e-5 + 2 * sl1) * 60 / dt:
        bad.append(('speed', '%s speed %r, expected %.4f' % (name, s['Speed'], m * 60 / dt)))
    nt = abs(jd - 2451545.0) / 365.25 * 20.04 / 3600 / max(0.01, math.cos(math.radians(rd[1])))       # either frame's north
    if m > 0.05:
        tol = nt + 0.01 + math.degrees(2 * math.radians(sl1) / math.sin(math.radians(min(m, 180 - m) or 1e-9)))
        x = M.bearing(rd, rd1)
        if not (isinstance(s['PA'], int) and 0 <= s['PA'] <= 360 and
                any((s['PA'] - k) % 360 == 0 for k in range(math.floor(x - tol), math.ceil(x + tol) + 1))):
            bad.append(('pa', '%s PA %r, expected %.3f' % (name, s['PA'], x)))
    g = o['geoloc_' + name]
    if slack < 1e-3:
        bad += [('geoloc-' + f, name + ' ' + t) for f, t in R.judge_geoloc(g, p0, jd)]
    else:
        q = M.geo_to_pos(g['lat'], g['lon'], g['alt'], jd)
        if math.dist(q, p0) > slack + d * 3e-5 + 1:
            bad.append(('geoloc', '%s geoloc %r is %.3f km off' % (name, g, math.dist(q, p0))))
    bad += [(f, name + ' ' + t) for f, t in R.judge_sun(o['sun_' + name], jd, site)]
    return bad


def run_block(blk):
    """All histories starting with a prefix, one configuration."""
    (site, day, radius, dt0, tail, extra, depth, kind), prefix, maxlen = blk
    dt = dt0 or 3
    mj = night(site, day)
    if kind == 'd':
        mj = round(mj * 40) / 40               # 36 minutes: exact in the date and in its 1e-5 d resolution
    jd0 = mj + M.JD_OFF
    rad = 90.0 if radius is None else radius
    pos = {(l, k): position(site, jd0 + k * dt / 86400, rad, l, k) for l in LETTERS for k in range(maxlen + 2)}
    letters = [l for l in LETTERS if all(pos[l, k] for k in range(maxlen + 2))]
    if any(l not in letters for l in 'OSAB'):
        print('states %s not all reachable' % letters)
        raise SystemExit(3)
    if any(l not in letters for l in prefix):
        return [], 0, 0, 0, None
    bad, n, withwin, tr = [], 0, 0, 0
    sample = None
    for ln in range(len(prefix), maxlen + 1):
        if len(prefix) < PFX and ln > len(prefix):
            break
        for rest in itertools.product(letters, repeat=ln - len(prefix)):
            h = prefix + ''.join(rest)
            # the state after the range: something else, so that reading beyond the end shows
            seq = h + ('O' if h[-1] in 'AB' else 'A')
            kn = []
            for k, l in enumerate(seq):
                t = jd0 + k * dt / 86400
                kn += [(t - 0.4 * dt / 86400,) + pos[l, k], (t + 0.4 * dt / 86400,) + pos[l, k]]
            end = mj + (ln - 1 + tail) * dt / 86400
            if kind == 'j':
                rng = '-j%.9f,%.9f' % (mj, end)
            else:
                rng = '-d%s,%s' % (iso(mj).isoformat(timespec='seconds'), iso(end).isoformat(timespec='seconds'))
            argv = ['c.tle', '-l%r,%r,%r' % site, rng, '-s7'] + (['-t%d' % dt] if dt0 else []) + list(extra) + (['-r%r' % radius] if radius is not None else [])
            b = judge(argv, h, kn, jd0, dt, site, rad)
            n += 1
            tr += ln
            withwin += window(h) is not None
            if b:
                b2 = judge(argv, h, kn, jd0, dt, site, rad)
                b = [x for x in b if x in b2]
            bad += [(f, 'history %s: %s' % (h, t), h, argv) for f, t in b]
            sample = sample or [h] + argv
    return bad, n, withwin, tr, sample


def judge(argv, h, kn, jd0, dt, site, rad, terr=2e-4):
    r = SRV.run(argv, {'c.tle': FILE if dt % 2 == 0 else FARFILE}, [(7, 0, kn)])
    try:
        doc = r.json()
    except Exception as e:
        return [('output', 'no JSON: %s rc=%s sig=%s' % (e, r.rc, r.sig))]
    if doc['status'] != 0 or r.rc != 0:
        return [('status', 'status %r rc %r %s' % (doc['status'], r.rc, doc['errmsg']))]
    w = window(h)
    if w is None:
        b = []
        if doc['n_sats_found'] != 0 or 'satellite' in doc:
            b.append(('window', 'a window is reported where there is none'))
        return b
    if doc['n_sats_found'] != 1 or 'satellite' not in doc:
        return [('window', 'no window reported, expected samples %d to %d' % (w[0], w[1]))]
    o = doc['satellite']
    ts, te = jd0 + w[0] * dt / 86400, jd0 + w[1] * dt / 86400
    s0 = 0.5 * terr if terr > 2e-4 else 0         # km the site moves in the error of the sample time
    bad = judge_event(o, 'start', ts, dt, site, kn, rad, s0)
    bad += judge_event(o, 'end', te, dt, site, kn, rad, s0)
    half = (w[0] + w[1]) % 2
    # speed on the stretch between two samples: < 60000 km in 0.2 step, time rounding terr s
    slack = 60000 / (0.2 * dt) * terr if half else s0
    bad += judge_event(o, 'mid', (ts + te) / 2, dt, site, kn, rad, slack)
    lst = [M.gmst_h(jd0 + k * dt / 86400) * 15 + site[1] for k in range(len(h))]

    def zd(k):
        jd = jd0 + k * dt / 86400
        return M.angle(tuple(interp(kn, jd)[i] - M.observer(jd, *site)[i] for i in range(3)), M.vec(lst[k], site[0]))
    best = min(zd(k) for k in w[2])
    c = [judge_event(o, 'max', jd0 + k * dt / 86400, dt, site, kn, rad, s0) for k in w[2] if zd(k) < best + 1e-6]
    if all(c):
        bad += c[0]
    if abs(doc['sunlit_duration_minutes'] - (te - ts) * 1440) > 0.0051 + 1e-4:
        bad.append(('duration', 'duration %r min, end - start = %.4f' % (doc['sunlit_duration_minutes'], (te - ts) * 1440)))
    if (o['name'], o['norad_n'], o['intl_desig']) != ('PASSER', 7, '1998-067A'):
        bad.append(('identity', 'satellite %r' % [o['name'], o['norad_n'], o['intl_desig']]))
    return bad


# ------------------------------------------------------------------ skip-daytime switch
def night_cases():
    for lat, lon in ((44.5, 11.3), (-29.3, -70.7), (0.0, 179.9), (65.0, -120.0), (78.0, 15.0), (-85.0, 90.0)):
        for day in (58861, 58950, 59021, 59115) + ((51544, 62502) if THOROUGH else ()):
            for fr in [k / 8 for k in range(8)]:
                for span in (0.2, 1.0):
                    yield lat, lon, day + fr, span


# ------------------------------------------------------------------ long histories, also across midnight, year and leap day
def long_cases():
    a, b = (44.5, 11.3, 23.0), (-29.25627, -70.73805, 2400.0)
    cfs = [(a, 58848 + 39 / 40, 45.0, 60, 'd'), (a, 58908 + 1431 / 1440, 30.0, 30, 'j'), (b, 59215.1, None, 20, 'j'), (a, 60000.875, 60.0, 1, 'j')]
    if THOROUGH:
        cfs += [(a, 51543 + 39 / 40, 45.0, 60, 'd'), (b, 59031.2, 45.0, 7, 'j')]
    for ci, cf in enumerate(cfs):
        for lead in (0, 2, 37, 300) + ((1500,) if THOROUGH else ()):
            for n in (1, 2, 3, 60, 333) + ((1200,) if THOROUGH else ()):
                for m in sorted({0, n // 3, n // 2, n - 1}):
                    for tail in ('', 'O', 'P', 'S', 'OOOAAA', 'PPA', 'SA'):
                        yield cf, lead, n, m, tail


def run_long(x):
    (site, mj, radius, dt, kind), lead, n, m, tail = x
    jd0 = mj + M.JD_OFF
    rad = 90.0 if radius is None else radius
    h = 'O' * lead + 'B' * m + 'A' + 'B' * (n - m - 1) + tail
    cache = POSC.setdefault((site, mj, dt), {})

    def pos(l, k):
        if (l, k) not in cache:
            cache[l, k] = position(site, jd0 + k * dt / 86400, rad, l, k if l in 'AB' else 1)
        return cache[l, k]
    kn = []
    for k, l in enumerate(h + ('O' if h[-1] in 'AB' else 'A')):
        p = pos(l, k)
        if p is None:
            return [], 0, 0, 0, None
        t = jd0 + k * dt / 86400
        kn += [(t - 0.4 * dt / 86400,) + p, (t + 0.4 * dt / 86400,) + p]
    end = mj + (len(h) - 0.7) * dt / 86400
    if kind == 'j':
        rng = '-j%.9f,%.9f' % (mj, end)
    else:
        rng = '-d%s,%s' % (iso(mj).isoformat(timespec='seconds'), iso(end).isoformat(timespec='seconds'))
    argv = ['c.tle', '-l%r,%r,%r' % site, rng, '-s7', '-t%d' % dt] + (['-r%r' % radius] if radius is not None else [])
    te = 5e-3 if kind == 'd' else 2e-4 + 4e-5 * len(h)          # a date is converted to within some ms
    bad = judge(argv, h, kn, jd0, dt, site, rad, te)
    if bad:
        b2 = judge(argv, h, kn, jd0, dt, site, rad, te)
        bad = [v for v in bad if v in b2]
    nm = '%dO%d.%d%s' % (lead, n, m, tail)
    return [(f, 'history %s: %s' % (nm, t), nm, argv) for f, t in bad], 1, 1, len(h), [nm] + argv


POSC = {}


def sun_alt(jd, lat, lon):
    ra, dec = M.sun_radec(jd)
    return M.altaz(ra, dec, M.gmst_h(jd) + lon / 15, lat)[0]


def run_night(nc):
    lat, lon, mj, span = nc
    site = (lat, lon, 0.0)
    jd0, jd1 = mj + M.JD_OFF, mj + span + M.JD_OFF
    dt = 240
    # a satellite kept over the zenith, far away: always inside, always lit
    kn = []
    n = int(span * 144) + 4
    for k in range(n):
        jd = jd0 + k / 144
        lst = M.gmst_h(jd) * 15 + lon
        kn.append((jd,) + sky.place(jd, *site, lst, max(-89.0, min(89.0, lat + 10)), 4e5, j2000=False))
    # earliest time the Sun is certainly / possibly set (0.05 deg tolerance), scanning finely
    first_possible = first_certain = None
    step = 20 / 86400
    t = jd0
    while t <= jd1 + 0.01:
        a = sun_alt(t, lat, lon)
        if a < 0.05 and first_possible is None:
            first_possible = t
        if a < -0.05:
            first_certain = t
            break
        t += step
    argv = ['c.tle', '-l%r,%r,%r' % site, '-j%.9f,%.9f' % (mj, mj + span), '-s7', '-t%d' % dt, '-N']

    def once():
        r = SRV.run(argv, {'c.tle': (FILE, FARFILE)[int(mj) % 2]}, [(7, 0, kn)])
        try:
            doc = r.json()
        except Exception as e:
            return [('output', 'no JSON: %s' % e)]
        if doc['status']:
            return [('status', '%r %r' % (doc['status'], doc['errmsg']))]
        if not doc['n_sats_found']:
            if first_certain is not None and first_certain + 70 / 86400 <= jd1:
                return [('night', 'nothing found though the Sun sets at %.5f' % (first_certain - M.JD_OFF))]
            return []
        s = doc['satellite']['sat_start']['MJD'] + M.JD_OFF
        if first_possible is None or s < first_possible - step - 1e-5:
            return [('night', 'scan begins at %.5f, Sun altitude %.3f' % (s - M.JD_OFF, sun_alt(s, lat, lon)))]
        if first_certain is not None and s > first_certain + 70 / 86400:
            return [('night', 'scan begins at %.5f, Sun set since %.5f' % (s - M.JD_OFF, first_certain - M.JD_OFF))]
        return []
    b = once()
    if b and not once():
        b = []
    return [(f, t, 'N', argv) for f, t in b], 1, first_certain is not None, 1, argv


def dispatch(x):
    return {'N': run_night, 'L': run_long, 'H': run_block}[x[0]](x[1])


def main(c):
    global C, EXE, PFX
    C = c
    PFX = 2
    EXE = c.build.server('sat_visibility')
    cases = []
    for cf in configs():
        for ln in range(1, PFX + 1):
            for p in itertools.product(LETTERS, repeat=ln):
                cases.append(('H', (cf, ''.join(p), cf[6])))
    nh = len(cases)
    cases += [('N', x) for x in night_cases()]
    nl = len(cases)
    cases += [('L', x) for x in long_cases()]
    res = vlib.pmap(dispatch, cases, chunk=1, init=worker_init)
    n = win = 0
    seen = set()
    tr = 0
    for bad, k, w, t, _ in res:
        tr += t
        n += k
        win += int(w)
        for f, t, h, argv in bad:
            if (f, h) not in seen:
                seen.add((f, h))
                c.violation('C07:%s:%s:%s' % (f, h, ' '.join(argv[1:])), t + '  [%s]' % ' '.join(argv), {'argv': argv, 'history': h})
    depth = max(cf[6] for cf in configs())
    c.cov.update(states=n, transitions=tr, long_histories=sum(r[1] for r in res[nl:]), traces_validated_against_impl=n, windows=win,
                 depth=depth, exhaustive=True,
                 rule='all histories over {outside lit, outside dark, inside dark, inside lit high, inside lit lower} of length 1..depth per configuration '
                      '(site, epoch, radius incl. default, step, alignment of the range end, -j / -d); each is one path of the model state machine '
                      '(before / in / after the window) and is replayed on the real program, all four events judged; long histories (0..300 samples before, '
                      '1..333 in the window, maximum at four places, seven continuations) across midnight, year end and leap day; -N: 6 latitudes x dates x 8 start hours x 2 spans',
                 samples=[res[5][4], res[nh // 2][4], res[-1][4]])
    c.assump += ['positions scripted through the SGP4/SDP4 link seam; between two samples the track is interpolated']


vlib.main('C07', 'model_checking', main)
