#!/usr/bin/env python3
"""C03: every sequence of catalogue entries (colliding numbers, in/out of region, uncomputable) over every split into files,
every cap, against a list model; plus catalogues around every internal capacity step, with full duplication, under ASan."""
import os, sys, itertools, json
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import vlib, model as M, sky
from vlib import THOROUGH
from sky import Sat

LAT, LON, HT, MJD, DT = 10.0, 20.0, 0.0, 58861.12, 10
JD = MJD + M.JD_OFF
HIGH, LOW = 3000.0, 300.0
P_LIT, P_DARK, P_OUT = M.geo_to_pos(11, 21, HIGH, JD), M.geo_to_pos(11, 21, LOW, JD), None
for dla, dlo in ((40, 40), (40, -40), (-40, 40), (-40, -40), (0, 60), (0, -60)):
    q = M.geo_to_pos(LAT + dla, LON + dlo, HIGH, JD)
    if M.shadow_margin(q, JD) > 50:
        P_OUT = q
assert M.shadow_margin(P_LIT, JD) > 50 and M.shadow_margin(P_DARK, JD) < -50 and P_OUT

ITEMS = [Sat('A', '00001', '98067A'), Sat('Aa', '    1', '98067A', deep=True), Sat('B', '00012', '98067B', deep=True), Sat('Bb', '00012', '98067BB'),
         Sat('C', 'A0001', '20001A', deep=True), Sat('O', '00002', '20001B'), Sat('E', '12000', '20001C'), Sat(None, '00120', '20001D'),
         Sat('D5', '12001', '20001E')]
POS = {1: P_LIT, 12: P_DARK, 100001: P_LIT, 2: P_OUT, 12000: None, 120: P_LIT, 12001: P_DARK}
CAPS = [None, 0, 1, 2, 3]
FILT = [[], ['-V'], ['-I'], ['-E', '-H']]


def expected(seq, cap, filt):
    out, seen = [], set()
    for s in seq:
        if s.n in seen:
            continue
        seen.add(s.n)
        p = POS[s.n]
        if p is None or p is P_OUT or ('-V' in filt and p is P_DARK) or (cap is not None and len(out) >= cap):
            continue
        out.append(s)
    return out


def worker_init(w):
    global SRV
    SRV = vlib.Srv(EXE, C.build.scratch(str(w)))


def splits(seq):
    n = len(seq)
    for k in range(n):
        for cuts in itertools.combinations(range(1, n), k):
            if k < 3:
                b = (0,) + cuts + (n,)
                yield [seq[b[i]:b[i + 1]] for i in range(k + 1)]


ROWS = ['%s\n', '#f\n\n%s\n#\n', '%s\r\n\r\n', '\n#x1\n%s']     # the rows around each file of the list


def layouts(seq):
    yield 'c.tle', {'c.tle': sky.text(seq)}
    for i, parts in enumerate(splits(seq)):
        row = ROWS[i % len(ROWS)]
        lis = ''.join((row % ('x%d' % j)) + ('\n' if not row.endswith('\n') and j + 1 < len(parts) else '') for j in range(len(parts)))
        fs = {'l': lis}
        for j, p in enumerate(parts):
            fs['x%d' % j] = sky.text(p, ('\n', '\r\n')[j % 2])
        yield '@l', fs


def judge(argv, exp, filt):
    r = SRV.run(argv, None, STUBS)
    try:
        doc = r.json()
    except Exception as e:
        return 'no document: %s (rc %r)' % (e, r.rc), None
    if doc['status'] != 0 or r.rc != 0:
        return 'status %r rc %r' % (doc['status'], r.rc), None
    want = [s.key() for s in exp]
    lit = sum(1 for s in exp if POS[s.n] is P_LIT)
    if '-I' in filt:
        if 'satellites' in doc:
            return 'satellites listed in spite of -I', None
    else:
        got = [sky.ekey(e) for e in sky.entries(doc)]
        if got != want:
            return 'returned %r, expected %r' % (got, want), None
        if sum(e['data'][8] for e in sky.entries(doc)) != lit:
            return 'sunlit flags', None
    if (doc['n_sats_found'], doc['n_sats'], doc['n_sunlit_sats']) != (len(want), len(want), lit):
        return 'counters %r %r %r, expected %d %d' % (doc['n_sats_found'], doc['n_sats'], doc['n_sunlit_sats'], len(want), lit), None
    for k in ('satellites', 'data_fields', 'run_command'):
        doc.pop(k, None)
    return None, doc


def run_seq(idx):
    seq = [ITEMS[i] for i in idx]
    n, bad, oc = 0, [], set()
    for li, (arg, fs) in enumerate(layouts(seq)):
        SRV.files(fs)
        full = {}
        for cap in CAPS:
            if cap is not None and cap > len(seq):
                continue
            for filt in FILT:
                if filt == ['-E', '-H'] and cap is not None:
                    continue
                if len(seq) > 3 and li and (filt or cap == 1) and not THOROUGH:
                    continue
                argv = [arg, '-l%r,%r,%r' % (LAT, LON, HT), '-j%r' % MJD, '-r40', '-H', '-t%d' % DT] + filt + ([] if cap is None else ['-n', str(cap)])
                exp = expected(seq, cap, filt)
                msg, doc = judge(argv, exp, filt)
                n += 1
                oc.add((len(exp), cap, tuple(filt)))
                if not msg:
                    if not filt:
                        full[cap] = doc
                    elif filt == ['-I'] and doc != full.get(cap, doc):
                        msg = '-I changes the document'
                if msg and judge(argv, exp, filt)[0]:
                    bad.append((argv, fs, msg))
    return n, bad, oc


# ------------------------------------------------------------------ large catalogues
def code(n):
    return '%05d' % n if n < 100000 else 'ABCDEFGHJKLMNPQRSTUVWXYZ'[n // 10000 - 10] + '%04d' % (n % 10000)


def big_case(job):
    """n distinct satellites, then all of them again, spelled differently where possible; over 1 or 3 files."""
    exe, n, base, nfiles = job
    srv = vlib.Srv(exe, C.build.scratch('big%d_%d_%d_%s' % (n, base, nfiles, os.path.basename(exe)[-4:])))
    l1, l2 = vlib.tle('00000', '98067A  ')

    def ent(name, c):
        return '%s\n%s%s\n%s%s\n' % ((name,) + tuple(x[:2] + c + x[7:68] + '' for x in (l1, l2)[:0])) if 0 else name + '\n' + fix(l1, c) + '\n' + fix(l2, c) + '\n'

    def fix(l, c):
        l = l[:2] + c + l[7:68]
        return l + str(vlib.checksum(l))
    step = 7 if base == 1 else 1
    nums = [base + i * step for i in range(n)]
    first = [ent('S%d' % k, code(k)) for k in nums]
    again = [ent('D%d' % k, '%5d' % k if k < 100000 else code(k)) for k in nums[::-1]]
    allt = first + again
    fs = {'l': ''.join('f%d\n' % i for i in range(nfiles))}
    m = (len(allt) + nfiles - 1) // nfiles
    for i in range(nfiles):
        fs['f%d' % i] = ''.join(allt[i * m:(i + 1) * m])
    argv = ['@l', '-l%r,%r,%r' % (LAT, LON, HT), '-j%r' % MJD, '-r40', '-t%d' % DT, '-n', '1000000']
    r = srv.run(argv, fs, [(-999, 0, sky.knots(JD, DT, P_LIT))], timeout=120)
    srv.close()
    msg = None
    try:
        doc = r.json()
        got = [e['norad_n'] for e in sky.entries(doc)]
        if got != nums:
            k = next((i for i, (a, b) in enumerate(zip(got, nums)) if a != b), min(len(got), len(nums)))
            msg = '%d satellites listed of %d; first difference at %d' % (len(got), n, k)
        elif any(e['name'] != 'S%d' % e['norad_n'] for e in sky.entries(doc)):
            msg = 'a later occurrence was returned'
        elif doc['n_sats_found'] != n or doc['n_sunlit_sats'] != n or r.rc != 0:
            msg = 'counters'
    except Exception as e:
        msg = 'no document: %s (rc %r sig %r) %s' % (e, r.rc, r.sig, r.err[:300])
    return job, msg


def cap_case(job):
    """2600 satellites, every third outside the region: the default cap, caps around it and beyond the number of matches."""
    cap, filt = job
    srv = vlib.Srv(EXE, C.build.scratch('cap%s_%d' % (cap, len(filt))))
    n = 2600
    ent = ['S%d\n%s\n%s\n' % ((k,) + vlib.tle(code(k), '98067A  ', n=(15.5, 2.0)[k % 2])) for k in range(1, n + 1)]
    inside = [k for k in range(1, n + 1) if k % 3]
    stubs = [(k, 0, sky.knots(JD, DT, P_OUT)) for k in range(3, n + 1, 3)] + [(-999, 0, sky.knots(JD, DT, P_LIT))]
    argv = ['@l', '-l%r,%r,%r' % (LAT, LON, HT), '-j%r' % MJD, '-r40', '-H', '-t%d' % DT] + filt + ([] if cap is None else ['-n', str(cap)])
    r = srv.run(argv, {'l': 'a\nb\n', 'a': ''.join(ent[:1300]), 'b': ''.join(ent[1300:])}, stubs, timeout=60)
    srv.close()
    want = inside[:1000 if cap is None else max(0, cap)]
    try:
        doc = r.json()
        if doc['status'] or r.rc:
            return job, 'status %r' % doc['status']
        if '-I' not in filt and [e['norad_n'] for e in sky.entries(doc)] != want:
            return job, '%d satellites listed, expected the first %d' % (len(sky.entries(doc)), len(want))
        if (doc['n_sats_found'], doc['n_sats'], doc['n_sunlit_sats']) != (len(want),) * 3:
            return job, 'counters %r %r %r, expected %d' % (doc['n_sats_found'], doc['n_sats'], doc['n_sunlit_sats'], len(want))
    except Exception as e:
        return job, 'no document: %s (rc %r sig %r)' % (e, r.rc, r.sig)
    return job, None


def files_case(job):
    """A list of n files of two satellites (one new, one of the previous file), with few file descriptors allowed."""
    import resource
    n, sub = job
    lim = resource.getrlimit(resource.RLIMIT_NOFILE)
    resource.setrlimit(resource.RLIMIT_NOFILE, (min(128, lim[1]), lim[1]))
    try:
        srv = vlib.Srv(EXE, C.build.scratch('files%d' % n))
    finally:
        resource.setrlimit(resource.RLIMIT_NOFILE, lim)
    ent = ['S%d\n%s\n%s\n' % ((k,) + vlib.tle(code(k), '98067A  ', n=(15.5, 2.0)[k % 2])) for k in range(1, n + 2)]
    fs = {'f%d' % i: ent[i] + ent[i - 1] for i in range(1, n + 1)}
    fs['l'] = ''.join('f%d\n%s' % (i, sub) for i in range(1, n + 1))
    argv = ['@l', '-l%r,%r,%r' % (LAT, LON, HT), '-j%r' % MJD, '-r40', '-H', '-t%d' % DT, '-n', '100000']
    r = srv.run(argv, fs, [(-999, 0, sky.knots(JD, DT, P_LIT))], timeout=60)
    srv.close()
    want = [2, 1] + list(range(3, n + 2))
    try:
        doc = r.json()
        got = [e['norad_n'] for e in sky.entries(doc)]
        if got != want or doc['n_sats_found'] != len(want) or r.rc:
            return job, '%d satellites listed of the %d of %d files' % (len(got), len(want), n)
    except Exception as e:
        return job, 'no document: %s (rc %r sig %r)' % (e, r.rc, r.sig)
    return job, None


def row_case(job):
    kind, n = job
    name = 'x' if kind == 'name' else './' * n + 'x'
    seq = [ITEMS[0], ITEMS[2]]
    lis = {'path': './' * n + 'x\n', 'crlf': './' * n + 'x\r\n', 'ctrl': 'x\t\r\n', 'comment': '#' + 'y' * n + '\nx\n', 'noeol': './' * n + 'x',
           'blank': '\n' * n + 'x\n', 'crblank': '\r\n' * n + 'x\r\n'}[kind]
    SRV.files({'l': lis, 'x': sky.text(seq)})
    argv = ['@l', '-l%r,%r,%r' % (LAT, LON, HT), '-j%r' % MJD, '-r40', '-H', '-t%d' % DT]
    return job, judge(argv, seq, [])[0] and judge(argv, seq, [])[0]


def main(c):
    global C, EXE, STUBS
    C = c
    EXE = c.build.server('sat_skymap')
    ASAN = c.build.server('sat_skymap', 'asan')
    STUBS = [(n, 0 if p else -1, sky.knots(JD, DT, p or (0, 0, 0))) for n, p in POS.items()]
    depth = 5 if THOROUGH else 4
    seqs = [i for n in range(1, depth + 1) for i in itertools.product(range(len(ITEMS)), repeat=n)]
    runs, oc = 0, set()
    for n, bad, o in vlib.pmap(run_seq, seqs, chunk=8, init=worker_init):
        runs += n
        oc |= o
        for argv, fs, msg in bad:
            c.violation('C03:seq:' + ' '.join(argv), msg, {'argv': argv, 'files': fs})
    sizes = [1000, 6999, 7000, 7001, 7776, 7777, 7778, 7779, 8886, 8887, 8888, 8889, 8890, 9999, 10000, 11110, 11112, 11667, 11668, 12223, 12500, 14000]
    if THOROUGH:
        sizes = sorted(set(sizes + list(range(7770, 7790)) + list(range(8880, 8900)) + list(range(9990, 10010)) + [15000, 20000, 30000]))
    jobs = [(EXE, n, b, f) for n in sizes for b, f in ((1, 1), (90000, 3))] + [(ASAN, sizes[-1], 1, 1), (ASAN, sizes[-1], 90000, 3), (ASAN, 7779, 1, 2)]
    for job, msg in vlib.pmap(big_case, jobs[::-1]):
        if msg and big_case(job)[1]:
            c.violation('C03:big:%s:%d:%d' % (os.path.basename(job[0])[-4:], job[1], job[2]), msg, {'case': job[1:]})
    rows = [(k, n) for k in ('path', 'crlf', 'comment', 'noeol', 'blank', 'crblank') for n in (0, 1, 10, 60, 120, 250, 1000, 1900)] + [('ctrl', 0)]
    for job, msg in vlib.pmap(row_case, rows, init=worker_init):
        if msg:
            c.violation('C03:row:%s:%d' % job, msg, {'case': job})
    caps = [(k, f) for k in (None, 1, 866, 867, 868, 999, 1000, 1001, 1733, 1734, 1735, 5000, 32768, 65536, 2147483647) for f in ([], ['-V'], ['-I'])]
    for job, msg in vlib.pmap(cap_case, caps):
        if msg and cap_case(job)[1]:
            c.violation('C03:cap:%s:%s' % (job[0], ' '.join(job[1])), msg, {'case': job})
    nfl = [(k, x) for k in (1, 2, 125, 300, 1100) for x in ('', '#\n')] + ([(5000, '')] if THOROUGH else [])
    for job, msg in vlib.pmap(files_case, nfl):
        if msg and files_case(job)[1]:
            c.violation('C03:files:%d:%d' % (job[0], len(job[1])), msg, {'case': job})
    runs += len(caps) + len(nfl)
    c.cov.update(caps=len(caps), file_lists=len(nfl))
    c.cov.update(states=len(seqs), transitions=runs, traces_validated_against_impl=runs + len(jobs) + len(rows), depth=depth, alphabet=len(ITEMS),
                 distinct_outcomes=len(oc), large_catalogues=len(jobs), largest=sizes[-1] * 2, list_row_shapes=len(rows), exhaustive=True,
                 rule='every sequence of 1..%d of %d entries (same number twice, same number spelled with blanks, letter-coded, out of region, dark, '
                      'uncomputable, unnamed) in one file and split over 1-3 files in every way, caps none/0/1/2/3, filters %r (quick: sequences of 4 '
                      'split over files only unfiltered); catalogues at each capacity step; 15 caps around the default and the number of matches; '
                      'lists of 1..1100 files with 128 file descriptors' % (depth, len(ITEMS), FILT),
                 samples=[list(seqs[0]), list(seqs[-1]), ['big'] + list(jobs[-1][1:])])
    c.assump += ['positions scripted through the SGP4/SDP4 link seam']


vlib.main('C03', 'model_checking', main)
