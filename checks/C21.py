#!/usr/bin/env python3
"""C21: what a document says about the query (input_params, Sun, field descriptions) against the query given and against the
document's own content, over full products of option values of both tools (real main(), scripted positions)."""
import os, sys, itertools, math, datetime
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import vlib, model as M, sky, report as R
from vlib import THOROUGH

E0 = datetime.datetime(1858, 11, 17)
# (text of -l, lat, lon, height)
SITES = [('44.52804,11.33715,23.5', 44.52804, 11.33715, 23.5), ('-29.25627,-70.73805,2400', -29.25627, -70.73805, 2400.0), ('0,359.9999,0', 0.0, 359.9999, 0.0),
         ('89.5,-180,-10.5', 89.5, 180.0, -10.5), ('-90,541.25,2800', -90.0, 181.25, 2800.0)]
# (options, mjd, date text or None)
TIMES = [([], 58861.5, '2020-01-13T12:00:00'), (['-j51544.5'], 51544.5, None), (['-j33282.25'], 33282.25, None), (['-j', '60000.99999'], 60000.99999, None),
         (['-d1999-12-31T23:59:59'], None, '1999-12-31T23:59:59'), (['-d', '2024-02-29T12:00:00', '-j50000'], None, '2024-02-29T12:00:00'), (['-j88069.12345'], 88069.12345, None)]
CENTRES = [None, (0.0, 0.0), (90.5, -30.3), (359.9999, 89.0), (180.25, -90.0)]
MODES = [[], ['-H'], ['-G'], ['-E'], ['-E', '-H'], ['-I'], ['-V', '-H'], ['-a100,50000'], ['-I', '-G'], ['-s1'], ['-i', '1998-067A'], ['-s3'], ['-SONE'], ['-Snone']]
RTN = [(20.0, 1, 1000, []), (180.0, -60, 2, ['-r180', '-t-60', '-n2']), (0.5, 86400, 1, ['-r', '0.5', '-t', '86400', '-n', '1']), (1e-3, 0, 3, ['-r.001', '-t0', '-n3'])]
# sat_visibility: (options, mjd0, mjd1, date0, date1)
RANGES = [(['-j58861.25,58861.2505'], 58861.25, 58861.2505, None, None), (['-d2019-12-31T23:59:30,2020-01-01T00:00:30'], None, None, '2019-12-31T23:59:30', '2020-01-01T00:00:30'),
          (['-d', '2000-02-28T23:59:59,2000-02-29T00:00:59', '-j', '50000,50001'], None, None, '2000-02-28T23:59:59', '2000-02-29T00:00:59'),
          (['-j', '51544.99999,51545.0003'], 51544.99999, 51545.0003, None, None)]
VRT = [(90.0, 3, []), (180.0, 1, ['-r180', '-t1']), (0.0, 25, ['-r0', '-t', '25'])]
VMODES = [['-s1'], ['-i1998-067A'], ['-s1', '-a100,50000'], ['-s1', '-N']]
FILES = [('c.tle', 'c.tle', []), ('@l.lis', 'l.lis', []), ('c.tle', 'c.tle', ['-D.'])]
if THOROUGH:
    SITES += [('%d,%d,%d' % (la, lo, h), float(la), lo % 360.0, float(h)) for la in (-60, -1, 30, 66, 90) for lo in (-300, -90, 0, 90, 270) for h in (0, 5000)]
    TIMES += [(['-j%r' % (33282.5 + k * 2741.17), '-T', '-D.'], 33282.5 + k * 2741.17, None) for k in range(20)]
    CENTRES += [(ra, de) for ra in (45.0, 135.5, 270.0) for de in (-60.0, 10.0, 80.0)]


def iso(mjd):
    """ISO second(s) an MJD may be given as (nearest second; both at a half)."""
    s = mjd * 86400
    return {(E0 + datetime.timedelta(seconds=k)).strftime('%Y-%m-%dT%H:%M:%S') for k in (math.floor(s + 0.501), math.ceil(s - 0.501))}


def mjd_of(date):
    d = datetime.datetime.strptime(date, '%Y-%m-%dT%H:%M:%S') - E0
    return d.days + d.seconds / 86400


def region(bad, ip, jd, site, centre):
    """The region object and sidereal times."""
    r = ip['region']
    g = M.gmst_h(jd)
    l = (g + site[2] / 15) % 24
    if not 0 <= ip['gmst'] <= 24 or M.adiff(ip['gmst'] * 15, g * 15) > 15 * 2.5e-4:
        bad.append(('gmst', 'gmst %r, expected %.4f' % (ip['gmst'], g)))
    if not 0 <= r['lmst'] <= 24 or M.adiff(r['lmst'] * 15, l * 15) > 15 * 2.5e-4:
        bad.append(('lmst', 'lmst %r, expected %.4f' % (r['lmst'], l)))
    if centre is None:
        if not 0 <= r['ra'] <= 360 or M.adiff(r['ra'], l * 15) > 4e-3 or abs(r['dec'] - site[1]) > 6e-5:
            bad.append(('zenith', 'region centre %r %r, zenith is at %.4f %.4f' % (r['ra'], r['dec'], l * 15, site[1])))
        centre = (l * 15, site[1])
    elif M.adiff(r['ra'], centre[0]) > 6e-5 or abs(r['dec'] - centre[1]) > 6e-5:
        bad.append(('centre', 'region centre %r %r, given %r' % (r['ra'], r['dec'], centre)))
    alt, az, q = M.altaz(centre[0], centre[1], l, site[1])
    c = math.cos(math.radians(alt))
    t = 4.5e-3
    if abs(r['alt'] - alt) > t * (1 if c > 1e-3 else 2):
        bad.append(('region-alt', 'region altitude %r, expected %.4f' % (r['alt'], alt)))
    if not 0 <= r['az'] <= 360 or (c > 1e-3 and abs(site[1]) < 89.999 and M.adiff(r['az'], az) > t / c):
        bad.append(('region-az', 'region azimuth %r, expected %.4f' % (r['az'], az)))
    cd = min(c, math.cos(math.radians(centre[1])))
    if not -180.01 <= r['parang'] <= 180.01 or (cd > 1e-3 and abs(site[1]) < 89.999 and M.adiff(r['parang'], q) > 6e-4 + t / c):
        bad.append(('region-parang', 'region parallactic angle %r, expected %.4f' % (r['parang'], q)))


def site_ok(bad, ip, site):
    l = ip['location']
    if abs(l['lat'] - site[1]) > 6e-5 or M.adiff(l['lon'], site[2]) > 6e-5 or abs(l['alt'] - site[3]) > 0.06:
        bad.append(('location', 'location %r, given %r' % (l, site[1:])))


def described(bad, name, f, n):
    """A block of parallel lists, one item for each of n data."""
    for k, v in f.items():
        if not isinstance(v, list) or len(v) != n or not all(isinstance(x, str) for x in v):
            bad.append(('described', '%s.%s has %s items for %d data' % (name, k, len(v) if isinstance(v, list) else v, n)))
    for k in ('desc', 'type', 'unit'):
        if k not in f:
            bad.append(('described', '%s has no %s' % (name, k)))


UNITS = {'RA_start': 'deg', 'Dec_start': 'deg', 'RA_end': 'deg', 'Dec_end': 'deg', 'Distance': 'km', 'Separation': 'deg', 'PA': 'deg', 'Speed': 'arcmin/s', 'sunlit': '', 'in_sunlit': '', 'HPXID_8': ''}
ORDER = ['RA_start', 'Dec_start', 'RA_end', 'Dec_end', 'Distance', 'Separation', 'PA', 'Speed', 'sunlit', 'HPXID_8']


def judge_skymap(doc, site, tm, centre, mode, rtn, fname):
    bad = []
    mjd = tm[1] if tm[1] is not None else mjd_of(tm[2])
    single = any(a[:2] in ('-s', '-i') for a in mode)
    geo = single or any(a[:2] in ('-G', '-E', '-a') for a in mode)
    if doc['swinfo']['name'] != 'sat_skymap':
        bad.append(('swinfo', 'program named %r' % doc['swinfo']))
    ip = doc['input_params']
    if ip['tle_file'] != fname:
        bad.append(('tle_file', 'tle_file %r, given %r' % (ip['tle_file'], fname)))
    site_ok(bad, ip, site)
    if abs(ip['mjd'] - mjd) > 1.1e-5:
        bad.append(('mjd', 'mjd %r, requested %r' % (ip['mjd'], mjd)))
    if ip['epoch_UTC'] not in ({tm[2]} if tm[2] else iso(mjd)):
        bad.append(('epoch', 'epoch_UTC %r, requested MJD %r %s' % (ip['epoch_UTC'], mjd, tm[2] or sorted(iso(mjd)))))
    c = None if single or '-E' in mode else centre
    region(bad, ip, mjd + M.JD_OFF, site, c)
    if abs(ip['region']['radius'] - rtn[0]) > 6e-5:
        bad.append(('radius', 'radius %r, given %r' % (ip['region']['radius'], rtn[0])))
    if ip['delta_time_s'] != rtn[1]:
        bad.append(('delta', 'delta_time_s %r, given %r' % (ip['delta_time_s'], rtn[1])))
    if ip['max_sats'] != rtn[2]:
        bad.append(('max_sats', 'max_sats %r, given %r' % (ip['max_sats'], rtn[2])))
    l = M.gmst_h(mjd + M.JD_OFF) * 15 + site[2]
    for f, t in R.judge_sun(doc['sun'], mjd + M.JD_OFF, site[1:], target=c or (l, site[1])):
        # at 1e-5 d of the requested instant: 0.0036 deg of rotation
        bad.append((f, t))
    # the document describes its own content
    ents = doc.get('satellites')
    if ('geoloc_fields' in doc) != geo:
        bad.append(('geoloc_fields', 'geoloc_fields %s, geodetic positions %srequested' % ('present' if 'geoloc_fields' in doc else 'missing', '' if geo else 'not ')))
    if '-I' in mode and ents is not None:
        bad.append(('info', 'satellites listed in spite of -I'))
    if ents:
        if 'data_fields' not in doc:
            return bad + [('data_fields', 'data are not described')]
        df = doc['data_fields']
        for e in ents:
            described(bad, 'data_fields', df, len(e['data']))
            for k, (nm, ty, v) in enumerate(zip(df['name'], df['type'], e['data'])):
                if nm not in (ORDER[k], 'in_sunlit' if k == 8 else ORDER[k]) or df['unit'][k] != UNITS.get(nm):
                    bad.append(('field-%d' % k, 'item %d described as %r in %r' % (k, nm, df['unit'][k])))
                if ty == 'int' and not isinstance(v, int) or ty not in ('int', 'float', 'double') or (k >= 8 and ty != 'int'):
                    bad.append(('type-%d' % k, '%s is %r, described as %s' % (nm, v, ty)))
            if ('geoloc' in e) != geo:
                bad.append(('geoloc', 'geoloc %s' % ('missing' if geo else 'not requested')))
            if geo and set(e.get('geoloc', ())) != set(doc.get('geoloc_fields', ())):
                bad.append(('geoloc_fields', 'geoloc items %s described as %s' % (sorted(e.get('geoloc', ())), sorted(doc.get('geoloc_fields', ())))))
    for k, v in doc.get('geoloc_fields', {}).items():
        if v.get('unit') != {'lat': 'deg', 'lon': 'deg', 'alt': 'km', 'theta': 'deg'}.get(k):
            bad.append(('geoloc_fields', '%s in %r' % (k, v.get('unit'))))
    return bad


VKEYS = ['Date', 'MJD', 'ra', 'dec', 'az', 'alt', 'Distance', 'Separation', 'PA', 'Speed']
VUNIT = ['', 'MJD', 'deg', 'deg', 'deg', 'deg', 'km', 'deg', 'deg', 'arcmin/s']


def judge_vis(doc, site, rg, mode, rt, fname):
    bad = []
    m0, m1 = (rg[1], rg[2]) if rg[1] is not None else (mjd_of(rg[3]), mjd_of(rg[4]))
    if doc['swinfo']['name'] != 'sat_visibility':
        bad.append(('swinfo', 'program named %r' % doc['swinfo']))
    ip = doc['input_params']
    if ip['tle_file'] != fname:
        bad.append(('tle_file', 'tle_file %r, given %r' % (ip['tle_file'], fname)))
    site_ok(bad, ip, site)
    for k, m in enumerate((m0, m1)):
        if abs(ip['mjd_range'][k] - m) > 1.1e-5:
            bad.append(('mjd', 'mjd_range[%d] %r, requested %r' % (k, ip['mjd_range'][k], m)))
        if ip['date_utc_range'][k] not in ({rg[3 + k]} if rg[3] else iso(m)):
            bad.append(('epoch', 'date_utc_range[%d] %r, requested MJD %r' % (k, ip['date_utc_range'][k], m)))
    region(bad, ip, m0 + M.JD_OFF, site, None)
    if abs(ip['region']['radius'] - rt[0]) > 6e-5:
        bad.append(('radius', 'radius %r, given %r' % (ip['region']['radius'], rt[0])))
    if ip['delta_time_s'] != rt[1]:
        bad.append(('delta', 'delta_time_s %r, given %r' % (ip['delta_time_s'], rt[1])))
    if 'geoloc_fields' not in doc:
        bad.append(('geoloc_fields', 'geoloc_fields missing'))
    s = doc.get('satellite')
    if s:
        f = doc.get('sat_fields')
        if not f:
            return bad + [('sat_fields', 'data are not described')]
        for k, v in s.items():
            if k.startswith('sat_') and v is not None:
                described(bad, 'sat_fields', f, len(v))
                if list(v) != VKEYS or f['unit'] != VUNIT:
                    bad.append(('fields', '%s has %s, units %s' % (k, list(v), f['unit'])))
                if f['type'][0] != 'datetime' or any(t not in ('double', 'float', 'int') for t in f['type'][1:]):
                    bad.append(('type', 'types %s' % f['type']))
            if k.startswith('geoloc_') and set(v) != set(doc.get('geoloc_fields', ())):
                bad.append(('geoloc_fields', '%s has %s' % (k, sorted(v))))
    for k, v in doc.get('geoloc_fields', {}).items():
        if v.get('unit') != {'lat': 'deg', 'lon': 'deg', 'alt': 'km', 'theta': 'deg'}.get(k):
            bad.append(('geoloc_fields', '%s in %r' % (k, v.get('unit'))))
    return bad


def worker_init(w):
    global SRV
    SRV = {k: vlib.Srv(x, C.build.scratch('%s%d' % (k, w))) for k, x in EXE.items()}


def files_stubs(jd, site, pts):
    names = ['ONE', 'TWO', 'ONE B']
    f = sky.cat_text([(names[k], k + 1, '98067%s  ' % 'ABC'[k]) for k in range(len(pts))])
    stubs = [(k + 1, 0, [(jd,) + tuple(p)]) for k, p in enumerate(pts)]
    return {'c.tle': f, 'l.lis': 'c.tle\n'}, stubs


def run_case(case):
    kind, site, tm = case[:3]
    out, n, nent = [], 0, 0
    srv = SRV[kind]
    if kind == 'sat_skymap':
        mjd = tm[1] if tm[1] is not None else mjd_of(tm[2])
        jd = mjd + M.JD_OFF
        lst = M.gmst_h(jd) * 15 + site[2]
        for centre in CENTRES:
            ra, de = centre or (lst, site[1])
            pts = [sky.place(jd, *site[1:], ra % 360, de, 20000.0), sky.place(jd, *site[1:], (ra + 5) % 360, max(-90, min(90, de + 3)), 30000.0),
                   M.geo_to_pos(site[1], site[2], 700.0, jd)]
            files, stubs = files_stubs(jd, site, pts)
            for k, (mode, rtn) in enumerate(itertools.product(MODES, RTN)):
                fa, fname, fo = FILES[k % 3]
                argv = [fa, '-l', site[0]] + tm[0] + mode + rtn[3] + fo + (['-p%r,%r' % centre] if centre else [])
                r, bad = go(srv, argv, files, stubs, lambda d: judge_skymap(d, site, tm, centre, mode, rtn, fname))
                n += 1
                nent += bool(r.out.find(b'"data"') >= 0)
                out += [(f, t, argv) for f, t in bad]
    else:
        m0 = tm[1] if tm[1] is not None else mjd_of(tm[3])
        jd = m0 + M.JD_OFF
        lst = M.gmst_h(jd) * 15 + site[2]
        pts = [sky.place(jd, *site[1:], lst % 360, site[1], 40000.0)]
        files, stubs = files_stubs(jd, site, pts)
        for k, (mode, rt) in enumerate(itertools.product(VMODES, VRT)):
            fa, fname, fo = FILES[k % 3]
            argv = [fa, '-l' + site[0]] + tm[0] + mode + rt[2] + fo
            r, bad = go(srv, argv, files, stubs, lambda d: judge_vis(d, site, tm, mode, rt, fname))
            n += 1
            nent += bool(r.out.find(b'"sat_start"') >= 0)
            out += [(f, t, argv) for f, t in bad]
    return n, nent, out


def go(srv, argv, files, stubs, judge):
    for attempt in (0, 1):
        r = srv.run(argv, files, stubs)
        try:
            doc = r.json()
            if r.rc not in (0, 1) or (r.rc == 1 and doc['n_sats_found']):
                bad = [('status', 'exit status %r: %s' % (r.rc, doc.get('errmsg')))]
            else:
                bad = judge(doc)
        except Exception as e:
            bad = [('output', '%s: %s rc=%s sig=%s' % (type(e).__name__, e, r.rc, r.sig))]
        if not bad:
            return r, []
    return r, bad


def main(c):
    global C, EXE
    C = c
    EXE = {k: c.build.server(k) for k in ('sat_skymap', 'sat_visibility')}
    cases = [('sat_skymap', s, t) for s in SITES for t in TIMES] + [('sat_visibility', s, t) for s in SITES for t in RANGES]
    ev = ne = 0
    seen = set()
    for case, (n, k, bad) in zip(cases, vlib.pmap(run_case, cases, init=worker_init)):
        ev += n
        ne += k
        for f, t, argv in bad:
            c.violation('C21:%s:%s:%s' % (case[0], f, ' '.join(argv)), '%s [%s %s]' % (t, case[0], ' '.join(argv)), {'argv': argv})
    c.cov.update(evaluations=ev, distinct_nontrivial=ne, exhaustive=True,
                 rule='sat_skymap: full product of sites x ways of giving the epoch x centres x modes (each filter, selection and output switch) x radius/step/cap values; sat_visibility: sites x ways of '
                      'giving the range x modes x radius/step; every document judged whole (input_params, sidereal times, region, Sun, descriptions against content); non-trivial: with data',
                 samples=['%s -l %s %s' % (x[0], x[1][0], ' '.join(x[2][0])) for x in cases[::max(1, len(cases) // 6)]])


vlib.main('C21', 'exploration', main)
