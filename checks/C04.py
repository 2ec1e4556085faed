#!/usr/bin/env python3
"""C04: output contract under every single fault: each open / line read (end of file and error) / allocation of a run failing in turn,
every file truncated at every byte, missing / empty / directory / garbage files at every list position, undecodable elements at every
catalogue position, in every output mode of both tools (real main() in a forked child, scripted positions)."""
import os, sys, itertools, math
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import vlib, model as M, sky
from vlib import THOROUGH, K_FOPEN, K_FGETS, K_MALLOC, K_REALLOC, K_CALLOC
from sky import Sat, Raw

SITE = (44.5, 11.3, 23.0)
MJD = 58861.9
JD = MJD + M.JD_OFF
END = {'k': ['run_command', 'status', 'errmsg', 'n_sats_found', 'n_sats', 'n_sunlit_sats'], 'v': ['run_command', 'status', 'errmsg', 'n_sats_found']}
CAT = [Sat('ALPHA "1"', '00001', '98067A'), Sat('BETA', '00002', '99001BC', deep=True), Sat(None, '00003', '20001A'), Sat('GAMMA\\', 'A0004', '21002C')]
NUM = [s.n for s in CAT]


def track(k, lit=True, inside=True):
    lst = M.gmst_h(JD) * 15 + SITE[1]
    ra, dec = sky.offset(lst, SITE[0], 40 * k, 5 + 3 * k if inside else 120)
    return [(JD,) + sky.place(JD, *SITE, ra, dec, 30000.0 + 100 * k, j2000=False)]


STUBS = [(s.n, 0, track(k)) for k, s in enumerate(CAT)]
K = ['-l%r,%r,%r' % SITE, '-j%r' % MJD]
V = ['-l%r,%r,%r' % SITE, '-j%.6f,%.6f' % (MJD, MJD + 0.0003), '-t10']


def scenarios():
    """(tool, arguments, files)"""
    one = {'c.tle': sky.text(CAT)}
    crlf = {'c.tle': sky.text(CAT, '\r\n')}
    lst = {'l.lst': '# comment\na.tle\n\nb.tle\n#\nc.tle\n', 'a.tle': sky.text(CAT[:1]), 'b.tle': sky.text(CAT[1:3]), 'c.tle': sky.text(CAT[2:])}
    ks = [['-r60'], ['-r60', '-G', '-H'], ['-r60', '-E', '-V'], ['-r60', '-I'], ['-s3'], ['-sA0004'], ['-s', '77'], ['-i1999-001BC'], ['-SBE'], ['-r0.001'],
          ['-r60', '-n2'], ['-a100,99999', '-r60']]
    vs = [['-s3'], ['-sA0004'], ['-s77'], ['-i', '1999-001BC'], ['-s1', '-r1'], ['-s2', '-N'], ['-s2', '-a100,99999']]
    for files, name in ((one, 'c.tle'), (lst, '@l.lst'), (crlf, 'c.tle')):
        for a in ks:
            yield 'k', [name] + K + a, files
        for a in vs:
            yield 'v', [name] + V + a, files
    yield 'k', K + ['-r60', 'c.tle'], one
    yield 'k', K + ['-r60', '@l.lst'], lst
    yield 'v', V + ['-s3', '@l.lst'], lst
    yield 'k', ['c.tle', '-D.'] + K + ['-r60', '-G', '-V', '-H', '-I'], one


def worker_init(w):
    global SRV
    d = C.build.scratch(str(w))
    SRV = {'k': vlib.Srv(EXE['k'], d + '/k'), 'v': vlib.Srv(EXE['v'], d + '/v')}


def dec(b):
    """Text of a JSON string made of these bytes: UTF-8, other bytes above 127 as ISO 8859-1."""
    t, i = '', 0
    while i < len(b):
        for n in (1, 2, 3, 4):
            try:
                t += b[i:i + n].decode('utf-8')
                i += n
                break
            except UnicodeDecodeError:
                pass
        else:
            t += chr(b[i])
            i += 1
    return t


BYTES = (0x01, 0x1f, 0x22, 0x41, 0x5c, 0x7f, 0x80, 0x8f, 0x90, 0x9f, 0xa0, 0xbf, 0xc0, 0xc1, 0xc2, 0xdf, 0xe0, 0xe1, 0xec, 0xed, 0xee, 0xef, 0xf0, 0xf1, 0xf3, 0xf4, 0xf5, 0xff)
CONT = (0x41, 0x7f, 0x80, 0x8f, 0x90, 0x9f, 0xa0, 0xbf, 0xc0)


def strings():
    """Every byte; pairs, triples and quadruples over the classes of UTF-8; a sequence cut by the length of the name field."""
    for b in range(1, 256):
        yield bytes([b])
    yield from (bytes(x) for x in itertools.product(BYTES, repeat=2))
    yield from (bytes(x) for x in itertools.product((0x22, 0x41) + BYTES[12:], CONT, CONT))
    yield from (bytes(x) for x in itertools.product((0xef, 0xf0, 0xf1, 0xf3, 0xf4, 0xf5), CONT, CONT, CONT))
    for k in range(17, 26):
        for q in (b'\xc3\xa9', b'\xe2\x82\xac', b'\xf0\x9f\x9b\xb0'):
            yield b'x' * k + q + b'y'


def run_text(x):
    """Names of satellites and arguments that are any text."""
    what, group = x
    bad, n, fs = [], 0, 0
    p0 = STUBS[0][2][0][1:]
    argv, wild = [], [(-999, 0, [(JD,) + p0])]
    want = lambda q: dec((b'N' + q).split(b'\n')[0][:24].rstrip(b' \t\v\f\r'))
    group = [q for q in group if b'\n' not in q and b'\r' not in q]
    if what == 'names':
        t = ''.join('N%s\n%s\n' % (q.decode('latin-1'), '\n'.join(vlib.tle('%05d' % (k + 1), '98067A  '))) for k, q in enumerate(group))
        argv = ['c.tle'] + K + ['-r60', '-n9999']
        r = SRV['k'].run(argv, {'c.tle': t}, wild)
        doc, b = contract('k', argv, r, False)
        n += 1
        if doc is not None:
            got = [e['name'] for e in sky.entries(doc)]
            if got != [want(q) for q in group]:
                b.append(('name', 'names %r, expected %r' % next(((g, want(q)) for g, q in itertools.zip_longest(got, group, fillvalue=b'') if g != want(q)), ('', ''))))
        bad += [(k, 'names of any text: ' + y, argv, 'names %r' % group[0]) for k, y in b]
        return bad, n, fs, argv
    for q in group:
        t = q.decode('latin-1')
        if what == 'one':
            r = SRV['v'].run(['c.tle'] + V + ['-s1'], {'c.tle': 'N%s\n%s\n' % (t, '\n'.join(vlib.tle('00001', '98067A  ')))}, wild)
            doc, b = contract('v', ['c.tle'] + V + ['-s1'], r, None)
            if doc is not None and doc.get('satellite', {}).get('name', want(q)) != want(q):
                b.append(('name', 'name %r, expected %r' % (doc['satellite']['name'], want(q))))
            n += 1
            bad += [(k, 'name %r: %s' % (q, y), ['c.tle'] + V + ['-s1'], 'name %r' % q) for k, y in b]
            continue
        if ' ' in t:
            continue
        for tool, argv in (('k', ['N' + t] + K + ['-r1']), ('v', ['N' + t] + V + ['-s1']), ('k', ['@N' + t] + K + ['-r1']), ('k', ['c.tle'] + K + ['-SN' + t]), ('v', ['c.tle'] + V + ['-sN' + t])):
            if '/' in t:
                continue
            r = SRV[tool].run(argv, {'c.tle': sky.text(CAT)}, wild)
            if r.rc == 254:
                continue
            doc, b = contract(tool, argv, r, True if argv[0] != 'c.tle' else None)
            if doc is not None and argv[0] != 'c.tle' and 'input_params' in doc and not doc['input_params']['tle_file'].endswith(dec(argv[0].encode('latin-1'))):
                b.append(('tle_file', 'tle_file %r' % doc['input_params']['tle_file']))
            n += 1
            fs += 1
            bad += [(k, 'argument %r: %s' % (q, y), argv, 'argument %r' % q) for k, y in b]
    return bad, n, fs, [a.encode('unicode_escape').decode() for a in argv]


def contract(tool, argv, r, must=None):
    """(doc, problems). must: True = has to fail, False = has to succeed, None = either, consistently."""
    if r.sig:
        return None, [('crash', 'signal %d' % r.sig)]
    try:
        doc = r.json()
    except Exception as e:
        return None, [('json', 'not one JSON document: %s: ...%r' % (e, r.out[-120:]))]
    b = []
    if not isinstance(doc, dict) or list(doc)[-len(END[tool]):] != END[tool]:
        return None, [('ending', 'last members %s' % (list(doc)[-7:] if isinstance(doc, dict) else type(doc)))]
    if doc['run_command'].split(' ')[1:] != [dec(a.encode('latin-1')) for a in argv]:
        b.append(('run_command', 'run_command %r' % doc['run_command']))
    st = doc['status']
    if (st != 0) != (r.rc != 0):
        b.append(('exit', 'status %r with exit code %r' % (st, r.rc)))
    if st != 0 and not doc['errmsg'].strip():
        b.append(('errmsg', 'status %r without a message' % st))
    if must is True and st == 0:
        b.append(('unreported', 'failure not reported (status 0)'))
    if must is False and st != 0:
        b.append(('failed', 'status %r: %s' % (st, doc['errmsg'])))
    if tool == 'k':
        e = sky.entries(doc)
        if st == 0 and '-I' not in argv and doc['n_sats_found'] != len(e):
            b.append(('count', 'n_sats_found %r, %d entries' % (doc['n_sats_found'], len(e))))
    return doc, b


def ents(tool, doc):
    if tool == 'k':
        return sky.entries(doc)
    s = doc.get('satellite')
    return [] if s is None else [s]


def subseq(a, b):
    it = iter(b)
    return all(any(x == y for y in it) for x in a)


def attempt(tool, argv, files, stubs, faults, must, ref, exact=None):
    """Run and judge; ref: entries of the undisturbed run."""
    def once():
        r = SRV[tool].run(argv, files, stubs, faults)
        doc, b = contract(tool, argv, r, must)
        if doc is not None and ref is not None:
            e = ents(tool, doc)
            if tool == 'v' and e and doc['status'] and ref:
                ok = all(e[0].get(k) == v for k, v in ref[0].items() if k in e[0])      # a window broken off keeps what it has
            else:
                ok = e == exact if exact is not None else subseq(e, ref)
            if not ok:
                b.append(('entries', 'satellites %s, expected %s' % ([x['norad_n'] for x in e], [x['norad_n'] for x in (ref if exact is None else exact)])))
        return b, doc
    b, doc = once()
    if b:
        b2, _ = once()
        b = [x for x in b if x[0] in {y[0] for y in b2}]
    return b, doc


def run_scen(sc):
    tool, argv, files = sc
    bad, n, fails = [], 0, 0

    def add(what, bs):
        for k, t in bs:
            bad.append((k, '%s: %s' % (what, t), argv, what))
    r0 = SRV[tool].run(argv, files, STUBS)
    # not finding the satellite is a failure of sat_visibility, not of sat_skymap
    must0 = False if tool == 'k' else None
    doc0, b = contract(tool, argv, r0, must0)
    n += 1
    add('undisturbed', b)
    if doc0 is None:
        return bad, n, fails, argv
    ref = ents(tool, doc0)
    fref = None if '-n2' in argv else ref         # with a cap a fault lets later satellites in
    # ---- every call failing
    plan = [(K_FOPEN, 0, True), (K_FGETS, 1, True), (K_FGETS, 0, None), (K_MALLOC, 0, True), (K_REALLOC, 0, True), (K_CALLOC, 0, True)]
    for kind, mode, must in plan:
        for i in range(r0.cnt[kind]):
            b, doc = attempt(tool, argv, files, STUBS, [(kind, i, mode)], must, fref)
            n += 1
            fails += bool(doc and doc['status'])
            add('fault kind %d call %d mode %d' % (kind, i, mode), b)
    if THOROUGH:
        calls = [(k, i, m) for k, m, _ in plan for i in range(r0.cnt[k])]
        for x, y in itertools.combinations(calls, 2):
            b, doc = attempt(tool, argv, files, STUBS, [x, y], None, fref)
            n += 1
            fails += bool(doc and doc['status'])
            add('faults %s %s' % (x, y), b)
    single = any(a[:2] in ('-s', '-i') for a in argv)
    # ---- every file truncated at every byte
    for f in files:
        t = files[f]
        for cut in range(len(t)):
            must = None
            if cut == 0:
                must = True if f.endswith('.tle') and not ref_stops_before(tool, argv, files, f, doc0, r0) else None
            b, doc = attempt(tool, argv, dict(files, **{f: t[:cut]}), STUBS, (), must, fref)
            n += 1
            fails += bool(doc and doc['status'])
            if doc is not None and not b and f == 'c.tle' and len(files) == 1 and cut and tool == 'k' and '-n2' not in argv and doc['status'] == 0:
                have = {s.n for s in CAT if s.l2 in t[:cut]}
                want = [e for e in ref if e['norad_n'] in have]
                if ents(tool, doc) != want:
                    b = [('truncated', 'satellites %s, complete in the file %s' % ([e['norad_n'] for e in ents(tool, doc)], [e['norad_n'] for e in want]))]
            if doc is not None and not b and cut and tool == 'k' and doc['status'] != 0 and f == 'c.tle' and len(files) == 1:
                b = [('failed', 'status %r: %s' % (doc['status'], doc['errmsg']))]
            add('%s cut at %d' % (f, cut), b)
    # ---- missing / directory / garbage files
    for f in files:
        need = not ref_stops_before(tool, argv, files, f, doc0, r0)
        rest = {k: v for k, v in files.items() if k != f}
        b, doc = attempt(tool, argv, rest, STUBS, (), True if need else None, ref)
        n += 1
        fails += 1
        add('%s missing' % f, b)
        b, doc = attempt(tool, argv, dict(rest, **{f + '/x': ''}), STUBS, (), True if need else None, ref)
        SRV[tool].files(rest)
        if os.path.isdir(SRV[tool].dir + '/' + f):
            os.rmdir(SRV[tool].dir + '/' + f)
        n += 1
        add('%s a directory' % f, b)
        if f.endswith('.tle'):
            for g in ('\0\0\n', 'x' * 5000, '1\n2\n', '\n\n\n', '1 ' + 'y' * 67 + '\n2 ' + 'z' * 67 + '\n', '\xff\xfe' * 40 + '\n'):
                b, doc = attempt(tool, argv, dict(files, **{f: g}), STUBS, (), None, None)
                n += 1
                add('%s garbage %r' % (f, g[:12]), b)
                if '-n2' not in argv and doc is not None:
                    if not subseq(ents(tool, doc), ref) and len(files) == 1:
                        add('%s garbage' % f, [('entries', 'satellites from garbage')])
    # ---- undecodable elements at every position
    nan = float('nan')
    for k, s in enumerate(CAT):
        for ret, pos in ((0, (nan, nan, nan)), (0, (nan, 1.0, 1.0)), (-1, (0.0, 0.0, 0.0)), (-2, (nan, nan, nan)), (-5, (1.0, 2.0, 3.0)), (-6, (7000.0, 0.0, 0.0))):
            st = [x if x[0] != s.n else (s.n, ret, [(JD,) + pos]) for x in STUBS]
            must = None
            if single:
                sel = next(a for a in argv if a[:2] in ('-s', '-i'))
                if sel == '-i':
                    sel += argv[argv.index('-i') + 1]
                if sel in ('-s%d' % s.n, '-s' + s.code, '-i' + s.desig):
                    must = True
                elif tool == 'k':
                    must = False
            elif ret:
                must = False
            elif '-SBE' in argv or '-n2' in argv:
                must = None
            else:
                must = True
            if '-n2' in argv:
                b, doc = attempt(tool, argv, files, st, (), None, None)
            else:
                b, doc = attempt(tool, argv, files, st, (), must, ref)
            n += 1
            fails += bool(doc and doc['status'])
            add('elements of %d undecodable (%d, %s)' % (s.n, ret, pos), b)
            # only later (second epoch / later samples)
            if pos[0] != pos[0]:
                for dt in (0.3, 12, 25):
                    p0 = STUBS[k][2][0][1:]
                    st2 = [x if x[0] != s.n else (s.n, 0, [(JD + dt / 86400, ) + p0, (JD + (dt + .1) / 86400,) + pos]) for x in STUBS]
                    b, doc = attempt(tool, argv, files, st2, (), None, None)
                    n += 1
                    fails += bool(doc and doc['status'])
                    add('elements of %d undecodable %.1f s later' % (s.n, dt), b)
    return bad, n, fails, argv


def ref_stops_before(tool, argv, files, f, doc0, r0):
    """Was file f never opened in the undisturbed run?"""
    order = [n for n in ('l.lst', 'a.tle', 'b.tle', 'c.tle') if n in files]
    return order.index(f) >= r0.cnt[K_FOPEN] if len(files) > 1 else False


BAD_EL = [dict(n=0.0), dict(ecc=0.9999999), dict(n=99.0), dict(bstar=' 99999+9'), dict(bstar='-99999+9'), dict(ecc=0.9, n=16.0), dict(n=0.0001), dict(incl=180.0), dict(ndot=' .99999999', bstar=' 99999+5')]


def run_real(kw):
    """Extreme elements through the real models (no stub)."""
    bad, n = [], 0
    t = '\n'.join(['BAD'] + list(vlib.tle('00009', '98067A  ', **kw))) + '\n' + sky.text(CAT)
    fs = 0
    for tool, sel in itertools.product('kv', (['-s9'], ['-r180', '-H'] if True else [], ['-r180', '-G'], ['-i1998-067A'])):
        for mj in (MJD, 58861.0, 62000.0, 40000.0):
            if tool == 'v':
                argv = ['c.tle', '-l%r,%r,%r' % SITE, '-j%.6f,%.6f' % (mj, mj + 0.003), '-t10'] + sel + ([] if sel[0][:2] in ('-s', '-i') else ['-s9'])
            else:
                argv = ['c.tle', '-l%r,%r,%r' % SITE, '-j%r' % mj] + sel
            b, doc = attempt(tool, argv, {'c.tle': t}, (), (), None, None)
            n += 1
            fs += bool(doc and doc['status'])
            bad += [(k, 'elements %r: %s' % (kw, x), argv, repr(kw)) for k, x in b]
    return bad, n, fs, argv


def run_big(step):
    """Reallocation of the duplicate list failing: catalogue beyond its first capacity."""
    bad, n, fs = [], 0, 0
    cat = ''.join('\n'.join(vlib.tle('%05d' % k, '98067A  ')) + '\n' for k in range(1, 12001))
    argv = ['c.tle'] + K + ['-r60', '-n', '100000'] + step
    p = STUBS[0][2][0][1:]
    stubs = [(-999, 0, [(JD,) + p])]
    r0 = SRV['k'].run(argv, {'c.tle': cat}, stubs, timeout=60)
    d0, b = contract('k', argv, r0, False)
    if d0 is None:
        return [(k, t, argv, 'big') for k, t in b], 1, 0, argv
    for kind in (K_MALLOC, K_REALLOC, K_CALLOC):
        for i in range(r0.cnt[kind]):
            r = SRV['k'].run(argv, {'c.tle': cat}, stubs, [(kind, i, 0)], timeout=60)
            d, b = contract('k', argv, r, True)
            n += 1
            fs += 1
            if d is not None and not step and sky.entries(d) != sky.entries(d0)[:len(sky.entries(d))]:
                b.append(('entries', 'entries before the failure differ'))
            bad += [(k, 'allocation %d/%d failing: %s' % (kind, i, t), argv, 'big') for k, t in b]
    return bad, n + 1, fs, argv


def dispatch(x):
    return {'scen': run_scen, 'real': run_real, 'big': run_big, 'text': run_text}[x[0]](x[1])


def main(c):
    global C, EXE
    C = c
    EXE = {'k': c.build.server('sat_skymap'), 'v': c.build.server('sat_visibility')}
    qs = list(strings())
    few = qs[:255] + qs[255::1 if vlib.THOROUGH else 17] + qs[-27:]
    cases = [('text', ('names', qs[k:k + 500])) for k in range(0, len(qs), 500)] + [('text', (w, few[k:k + 60])) for w in ('one', 'args') for k in range(0, len(few), 60)]
    cases += [('big', []), ('big', ['-I'])] + [('scen', s) for s in scenarios()] + [('real', k) for k in BAD_EL]
    res = vlib.pmap(dispatch, cases, chunk=1, init=worker_init)
    n = fs = 0
    seen = {}
    for bad, k, f, argv in res:
        n += k
        fs += f
        for key, t, av, what in bad:
            seen[key, ' '.join(av[1:])] = seen.get((key, ' '.join(av[1:])), 0) + 1
            if seen[key, ' '.join(av[1:])] <= 2:
                c.violation('C04:%s:%s:%s' % (key, what, ' '.join(av)), t + '  [%s]' % ' '.join(av), {'argv': av, 'fault': what})
    c.cov.update(evaluations=n, distinct_nontrivial=fs, scenarios=len(cases), failing_runs=fs, exhaustive=True,
                 rule='per scenario (tool x selection/output mode x one file, list of files, CRLF): every open, every line read (end of file / error), every '
                      'allocation failing in turn (thorough: every pair), every file cut at every byte, every file missing / a directory / garbage, every '
                      'satellite undecodable from the first or from a later instant; extreme elements through the real models. Non-trivial: the run ended with a failure status',
                 samples=[res[2][3], res[len(res) // 2][3], res[-1][3]])
    c.assump += ['failures of stdout itself are not injected', 'positions scripted through the SGP4/SDP4 link seam except for the extreme elements']


vlib.main('C04', 'fault_enumeration', main)
