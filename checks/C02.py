#!/usr/bin/env python3
"""C02: selection by number, designator and name, over every catalogue of bounded length from a colliding alphabet of
entries (and broken entries), every selector, filter switch and file split, on the real programs."""
import os, sys, itertools
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import vlib, model as M, sky
from vlib import THOROUGH
from sky import Sat, Raw

LAT, LON, HT = 10.0, 20.0, 0.0
MJD = 58861.5


def night_mjd():
    """An epoch with the Sun 25-30 deg below the horizon of the site."""
    for i in range(1000):
        mjd = 58861.0 + i * 0.005
        jd = mjd + M.JD_OFF
        ra, dec = M.sun_radec(jd)
        if -31 < M.altaz(ra, dec, M.gmst_h(jd) + LON / 15, LAT)[0] < -29:
            return round(mjd, 3)


MJD = night_mjd()
JD = MJD + M.JD_OFF
DT = 10
HIGH, LOWALT = 3000.0, 300.0


def pos(inside, lit):
    for dla, dlo in ((1, 1),) if inside else ((40, 40), (40, -40), (-40, 40), (-40, -40), (0, 60), (0, -60)):
        p = M.geo_to_pos(LAT + dla, LON + dlo, HIGH if lit else LOWALT, JD)
        m = M.shadow_margin(p, JD)
        if (m > 50) == lit and abs(m) > 50:
            return p


def mk():
    a = Sat('ALPHA', '00001', '98067A')
    b = Sat('ALPHA 2', '00010', '98067AB', deep=True)
    c = Sat('ALP', 'A0001', '20001A')
    d = Sat(None, '00100', '20001AAA', deep=True)
    e = Sat('BETA', '10000', '57001A')
    a2 = Sat('ALPHA', '    1', '98067A')
    bad = Sat('GAMMA', '00010', '98067AB')
    bad = Raw('GAMMA', bad.l1, bad.l2[:68] + str((int(bad.l2[68]) + 1) % 10))
    orphan_name = Raw('ALPHA 2')
    blank = Raw('')
    orphan1 = Raw('ALP', Sat('x', '10000', '57001A').l1)
    orphan2 = Raw('BETA', Sat('x', '00001', '98067A').l2)
    # orphan1 directly followed by the line 2 of the same object would be an entry; e starts with a name, so it is not
    return [a, b, c, d, e, a2, bad, orphan_name, blank, orphan1, orphan2]


# number -> (inside, lit)
WHERE = {1: (False, True), 10: (True, True), 100001: (True, False), 100: (True, True), 10000: (False, False)}
SEL = [('-s', '1'), ('-s', '00001'), ('-s', '10'), ('-s', '100001'), ('-s', 'A0001'), ('-s', '10000'), ('-s', '100'), ('-s', '99'), ('-s', '0'),
       ('-s', 'B0001'), ('-i', '1998-067A'), ('-i', '1998-067AB'), ('-i', '1998-067'), ('-i', '1957-001A'), ('-i', '2020-001A'), ('-i', '2020-001AAA'),
       ('-i', '2020-001AA'), ('-i', '98067A'), ('-S', 'ALPHA'), ('-S', 'ALPHA 2'), ('-S', 'ALP'), ('-S', 'BETA'), ('-S', 'alpha'), ('-S', 'A 2'),
       ('-S', 'ALPHA 22')]
FILT = [[], ['-V'], ['-E', '-H'], ['-a', '5000,6000'], ['-G', '-n', '2']]


def match(sat, opt, val):
    if opt == '-s':
        return sat.n == int(val) if val.isdigit() else sat.code == val
    if opt == '-i':
        return sat.desig == val
    return (sat.name or '').startswith(val)


def expected(seq, opt, val, filt):
    """Entries returned by a correct sat_skymap."""
    out, seen = [], set()
    cap = 2 if '-n' in filt else 1000
    for s in seq:
        if not isinstance(s, Sat) or not match(s, opt, val) or s.n in seen:
            continue
        seen.add(s.n)
        if '-V' in filt and not WHERE[s.n][1]:
            continue
        if '-a' in filt and opt == '-S':
            continue                    # nothing is between 5000 and 6000 km; single satellites ignore -a
        out.append(s)
        if opt != '-S' or len(out) == cap:
            break
    return out


def worker_init(w):
    global SK, SV
    d = C.build.scratch(str(w))
    SK, SV = vlib.Srv(EXE_K, d), vlib.Srv(EXE_V, d)
    SV._files = SK._files


def setfiles(fs):
    SK.files(fs)


def stubs():
    return [(n, 0, sky.knots(JD, DT, pos(*w))) for n, w in WHERE.items()]


def run(srv, argv):
    r = srv.run(argv, None, STUBS)
    try:
        return r, r.json()
    except Exception as e:
        return r, None


def check_k(argv, exp):
    r, doc = run(SK, argv)
    if doc is None or doc.get('status') != 0 or r.rc != 0:
        return 'no usable document (rc %r, status %r)' % (r.rc, doc and doc.get('status')), None
    got = [sky.ekey(e) for e in sky.entries(doc)]
    want = [s.key() for s in exp]
    if got != want or doc['n_sats_found'] != len(want):
        return 'returned %r, expected %r' % (got, want), got
    for e, s in zip(sky.entries(doc), exp):
        d = sky.topo(JD, LAT, LON, HT, pos(*WHERE[s.n]))[0][2]
        if abs(e['data'][4] - d) > 0.02:
            return 'satellite %d has distance %r, expected %.2f' % (s.n, e['data'][4], d), got
    return None, got


VFILT = [[], ['-a', '4000,2000'], ['-a', '5000,6000'], ['-N'], ['-a', '200,400', '-N']]


def check_v(argv, exp):
    r, doc = run(SV, argv)
    f = argv[argv.index('-a') + 1] if '-a' in argv else None
    if doc is None:
        return 'no document (rc %r)' % r.rc, None
    if not exp:
        if doc.get('n_sats_found') != 0 or 'satellite' in doc or doc['status'] == 0:
            return 'something returned for an absent satellite: %r' % {k: doc.get(k) for k in ('status', 'satellite')}, None
        return None, ()
    s = exp[0]
    vis = all(WHERE[s.n])
    if f:
        lo, hi = sorted(float(x) for x in f.split(','))
        if not lo <= (HIGH if WHERE[s.n][1] else LOWALT) <= hi:
            if doc['status'] == 0 or r.rc == 0 or doc['n_sats_found'] or 'satellite' in doc:
                return 'satellite %d outside the altitude range: status %r, n_sats_found %r' % (s.n, doc['status'], doc['n_sats_found']), None
            return None, ('alt',)
    if doc['status'] != 0 or r.rc != 0:
        return 'status %r rc %r' % (doc['status'], r.rc), None
    if ('satellite' in doc) != vis or doc['n_sats_found'] != vis:
        return 'window %s for satellite %d' % ('missing' if vis else 'reported', s.n), None
    if vis and sky.ekey(doc['satellite']) != s.key():
        return 'returned %r, expected %r' % (sky.ekey(doc['satellite']), s.key()), None
    return None, (s.key() if vis else 'none',)


def layouts(seq):
    """(tle argument, files)"""
    yield 'c.tle', {'c.tle': sky.text(seq)}, resolve([seq])
    n = len(seq)
    if n > 1 and len(sky.text(seq[:1])) > 0:
        for k in range(1, n):
            if sky.text(seq[:k]) and sky.text(seq[k:]):
                yield '@l', {'l': '# comment\nx1\n\nx2\n', 'x1': sky.text(seq[:k]), 'x2': sky.text(seq[k:], '\r\n')}, resolve([seq[:k], seq[k:]])


def resolve(parts):
    """Entries of the files, with the name a correct reader gives them (the name line just before line 1, if any)."""
    out = []
    for part in parts:
        prev = None
        for it in part:
            if isinstance(it, Sat) and it.name is None and isinstance(prev, Raw) and prev.raw[-1][:2] not in ('1 ', '2 '):
                s = Sat(prev.raw[-1], it.code, it.intl, deep=True)
                out.append(s)
            else:
                out.append(it)
            prev = it
    return out


def run_seq(idx):
    seq = [ITEMS[i] for i in idx]
    n = 0
    bad = []
    outcomes = set()
    for li, (arg, fs, ents) in enumerate(layouts(seq)):
        setfiles(fs)
        for opt, val in SEL:
            for fi, filt in enumerate(FILT):
                if (li or len(seq) > 2) and fi > 1 and not THOROUGH:
                    continue
                argv = [arg, '-l%r,%r,%r' % (LAT, LON, HT), '-j%r' % MJD, '-r20', '-t%d' % DT, opt, val] + filt
                exp = expected(ents, opt, val, filt)
                msg, got = check_k(argv, exp)
                n += 1
                outcomes.add(tuple(got) if got is not None else None)
                if msg and check_k(argv, exp)[0]:
                    bad.append((argv, fs, msg))
            if opt != '-S':
                for vf in VFILT if (not li and len(seq) < 3) or THOROUGH else VFILT[:1]:
                    argv = [arg, '-l%r,%r,%r' % (LAT, LON, HT), '-j%r,%r' % (MJD, MJD + 0.0001), '-r20', '-t3', opt, val] + vf
                    exp = expected(ents, opt, val, [])
                    msg, got = check_v(argv, exp)
                    n += 1
                    if msg and check_v(argv, exp)[0]:
                        bad.append((['sat_visibility'] + argv, fs, msg))
    return n, bad, outcomes


# ------------------------------------------------------------------ many identifiers at once
def big_cat():
    codes = ['00000', '00001', '00009', '00010', '00100', '01000', '09999', '10000', '99999', '    5', '  123', 'A0000', 'A0001', 'A9999', 'B0000', 'H0000',
             'J0000', 'N0000', 'P0000', 'Z9999', 'Z0000', '12345', '54321', '1234 '.strip().rjust(5), 'A1234', 'B1234', '01234'.replace('0', '6', 1)]
    ints = []
    for y in ('57', '58', '99', '00', '56', '20'):
        for l in ('001', '010', '100', '999'):
            for pc in ('A', 'B', 'AA', 'AB', 'BA', 'AAA', 'ABC', 'ZZZ', 'Z'):
                ints.append(y + l + pc)
    sats, seen = [], set()
    k = 0
    for c in codes:
        if sky.decode_norad(c) not in seen:
            seen.add(sky.decode_norad(c))
            sats.append(Sat('N' + c.strip(), c, ints[k], deep=k % 2 > 0))
            k += 1
    nn = 20000
    for it in ints[k:]:
        nn += 1
        sats.append(Sat('I' + it, '%05d' % nn, it))
    return sats


def run_big(job):
    which, opt, val, target = job
    sats = BIG
    if SK._files.get('big') is None:
        SK.files({'big': sky.text(sats)})
    st = [(s.n, 0, sky.knots(JD, DT, pos(True, True))) for s in sats]
    want = [s.key() for s in sats if match(s, opt, val)]
    if which == 'k':
        r = SK.run(['big', '-l%r,%r,%r' % (LAT, LON, HT), '-j%r' % MJD, '-r20', opt, val], None, st)
    else:
        r = SV.run(['big', '-l%r,%r,%r' % (LAT, LON, HT), '-j%r,%r' % (MJD, MJD + 0.0001), '-r20', opt, val], None, st)
    try:
        doc = r.json()
        got = [sky.ekey(e) for e in (sky.entries(doc) if which == 'k' else [doc['satellite']] if 'satellite' in doc else [])]
    except Exception as e:
        got = repr(e)
    return job, (None if got == want else 'returned %r, expected %r' % (got, want))


# ------------------------------------------------------------------ far down a large catalogue, far down a long list
DEEP = 21000


def run_deep(job):
    """Target at position k of 21000 satellites (all in the region, all lit), or in the k-th file of a list (few descriptors)."""
    import resource
    which, opt, k, nfiles = job
    ent = lambda i: Sat('N%d%s' % (i, 'Z' if i == k else ''), sky_code(20000 + i), '%02d%03d%s' % (57 + i // 900 % 40, i % 900 + 1, 'ABCDEFGHJKLMNPQRSTUVWXYZ'[i // 36000]), deep=i % 3 == 0)
    if nfiles:
        fs = {'f%d' % i: sky.text([ent(i)]) for i in range(nfiles)}
        fs['big'] = ''.join('f%d\n' % i for i in range(nfiles))
    else:
        fs = {'big': sky.text([ent(i) for i in range(DEEP)])}
    lim = resource.getrlimit(resource.RLIMIT_NOFILE)
    resource.setrlimit(resource.RLIMIT_NOFILE, (min(128, lim[1]), lim[1]))
    try:
        srv = vlib.Srv(EXE_K if which == 'k' else EXE_V, C.build.scratch('deep%s%s%d_%d' % (which, opt, k, nfiles)))
    finally:
        resource.setrlimit(resource.RLIMIT_NOFILE, lim)
    t = ent(k)
    val = {'-s': str(t.n), '-i': t.desig, '-S': t.name}[opt]
    rng = '-j%r' % MJD if which == 'k' else '-j%r,%r' % (MJD, MJD + 0.0001)
    r = srv.run([('@' if nfiles else '') + 'big', '-l%r,%r,%r' % (LAT, LON, HT), rng, '-r20', opt, val], fs,
                [(-999, 0, sky.knots(JD, DT, pos(True, True)))], timeout=60)
    srv.close()
    try:
        doc = r.json()
        got = [sky.ekey(e) for e in (sky.entries(doc) if which == 'k' else [doc['satellite']] if 'satellite' in doc else [])]
    except Exception as e:
        got = repr(e)
    return job, (None if got == [t.key()] else 'returned %r, expected %r' % (got, [t.key()]))


def sky_code(n):
    return '%05d' % n if n < 100000 else 'ABCDEFGHJKLMNPQRSTUVWXYZ'[n // 10000 - 10] + '%04d' % (n % 10000)


# ------------------------------------------------------------------ names
def names():
    base = ['A', 'ISS (ZARYA)', 'X' * 22, 'X' * 23, 'X' * 24, 'AB CD EF GH IJ KL MN OPQ', '1998 KY26', '2001 MARS ODYSSEY', '12345', '21', '0 VANGUARD 1',
            'A"B\\C', 'a/b,c:{}[]', "O'BRIEN", '-X', '#X', '@X', '  LEAD', '1', '2', '1A 2', "'1 '", 'TAB\tX', '%s%d%n']
    for b in base:
        for tail in ('', ' ', '   ', '\t'):
            for eol in ('\n', '\r\n'):
                if b in '12' and tail.startswith(' '):
                    continue            # reads as the beginning of a TLE data line
                yield b, tail, eol


def run_name(job):
    b, tail, eol = job
    other = Sat('OTHER NAME OF SOME LENGTH', '00010', '98067AB')
    s = Sat(b + tail, '00001', '98067A')
    noname = Sat(None, '00100', '20001AAA')
    SK.files({'c.tle': sky.text([other, s, noname], eol)})
    bad = []
    for opt, val in (('-s', '1'), ('-S', b), ('-s', '100'), ('-s', '10')):
        argv = ['c.tle', '-l%r,%r,%r' % (LAT, LON, HT), '-j%r' % MJD, '-t%d' % DT, opt, val]
        r, doc = run(SK, argv)
        want = {'1': [s.shown], '100': [''], '10': [other.name[:24].rstrip()]}.get(val if opt == '-s' else None, [b])
        try:
            got = [e['name'] for e in doc['satellites']]
        except Exception as e:
            got = repr(r.out[-300:])
        if opt == '-S' and len(b) < len(b.rstrip()):
            continue
        if isinstance(got, list):
            got = [g.rstrip() for g in got]
        if got != [w.rstrip() for w in want]:
            bad.append((argv, 'name %r, expected %r' % (got, want)))
        if opt == '-s':
            argv = ['c.tle', '-l%r,%r,%r' % (LAT, LON, HT), '-j%r,%r' % (MJD, MJD + 0.0001), '-r180', '-t3', opt, val]
            r, doc = run(SV, argv)
            try:
                got = doc['satellite']['name'].rstrip()
            except Exception as e:
                got = repr(r.out[-300:])
            if got != want[0].rstrip() and WHERE[int(val)][1]:
                bad.append((['sat_visibility'] + argv, 'name %r, expected %r' % (got, want)))
    return job, bad


def main(c):
    global C, EXE_K, EXE_V, ITEMS, STUBS, BIG
    C = c
    EXE_K, EXE_V = c.build.server('sat_skymap'), c.build.server('sat_visibility')
    ITEMS, STUBS, BIG = mk(), stubs(), big_cat()
    depth = 4 if THOROUGH else 3
    seqs = []
    for n in range(1, depth + 1):
        for idx in itertools.product(range(len(ITEMS)), repeat=n):
            if sky.text([ITEMS[i] for i in idx]).strip():
                seqs.append(idx)
    # a bare line 2 after an orphan line 1 would form an entry nobody wrote; every item here starts with a name line, except the
    # unnamed entry d, which starts with a line 1
    runs = 0
    outcomes = set()
    for n, bad, oc in vlib.pmap(run_seq, seqs, chunk=4, init=worker_init):
        runs += n
        outcomes |= oc
        for argv, fs, msg in bad:
            c.violation('C02:seq:' + ' '.join(argv), msg, {'argv': argv, 'files': fs})
    jobs = []
    for s in BIG:
        for w in 'kv':
            jobs += [(w, '-s', str(s.n), s), (w, '-s', s.code.strip(), s), (w, '-i', s.desig, s)]
        jobs.append(('k', '-S', s.name, s))
    for w in 'kv':
        jobs += [(w, '-s', v, None) for v in ('2', '99998', '100002', '339998', '-1', '4294967297', '99999999999999999999')]
        jobs += [(w, '-i', v, None) for v in ('1957-001', '1957-001C', '2057-001A', '1956-001A', '957-001A', '1957-0011', '')]
    jobs = [(w, o, v, None) for w, o, v, _ in jobs if not (o == '-s' and v == '')]
    for job, msg in vlib.pmap(run_big, jobs, chunk=8, init=worker_init):
        if msg and run_big_again(job):
            c.violation('C02:big:%s %s %s' % job[:3], msg, {'job': job[:3]})
    deep = [(w, o, k, 0) for w in 'kv' for o in ('-s', '-i', '-S') if w == 'k' or o != '-S' for k in (0, 999, 1000, 7777, 8888, 9999, 16384, DEEP - 1)]
    deep += [(w, o, n - 1, n) for w in 'kv' for o in ('-s', '-i') for n in (127, 1100)]
    for job, msg in vlib.pmap(run_deep, deep):
        if msg and run_deep(job)[1]:
            c.violation('C02:deep:%s %s %d %d' % job, msg, {'job': job})
    runs += len(deep)
    nj = list(names())
    for job, bad in vlib.pmap(run_name, nj, chunk=4, init=worker_init):
        for argv, msg in bad:
            c.violation('C02:name:%r:%s' % (job, ' '.join(argv[-2:])), msg, {'argv': argv, 'name': job})
    c.cov.update(states=len(seqs) + len(BIG) + len(nj), transitions=runs + len(jobs) + len(nj) * 7, traces_validated_against_impl=runs + len(jobs) + len(nj) * 7,
                 catalogues=len(seqs), depth=depth, alphabet=len(ITEMS), selectors=len(SEL), distinct_outcomes=len(outcomes), identifier_queries=len(jobs),
                 exhaustive=True,
                 rule='every sequence of 1..%d items of a %d-item alphabet (colliding prefixes in name, number, designator; unnamed, duplicate, corrupt and '
                      'incomplete entries), as one file and as every two-file list; every selector x filters (sunlit, altitude, site reference, cap; sat_visibility: altitude ranges, skip-daytime); each result compared with the list model; 1,500 identifier spellings; targets far down a catalogue of 21,000 and a list of 1,100 files' % (depth, len(ITEMS)),
                 samples=[[str(seqs[0]), SEL[0]], [str(seqs[-1]), SEL[-1]], list(jobs[0][:3])])
    c.assump += ['positions scripted through the SGP4/SDP4 link seam']


def run_big_again(job):
    worker_init(99)
    r = run_big(job)[1]
    SK.close(), SV.close()
    return r


vlib.main('C02', 'model_checking', main)
