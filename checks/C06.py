#!/usr/bin/env python3
"""C06: option sets of both tools up to a size in every order, spelling and file position give one and the same document; documented
precedences, echo and diagnosis of bad options hold in every order (real main(), scripted positions)."""
import os, sys, itertools, math, json, re
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import vlib, model as M, sky
from vlib import THOROUGH
from sky import Sat

MJD = 58861.5
JD = MJD + M.JD_OFF
VAL = {'k': {'a': '-100,20000', 'd': '2019-06-05T21:30:15', 'D': 'sub', 'i': '1999-001BC', 'j': '58900.25', 'n': '3', 'p': '200.5,-30.25', 'r': '75', 's': '3', 'S': 'AL', 't': '-40'},
       'v': {'a': '-100,850', 'd': '2020-01-13T12:00:00,2020-01-13T12:01:00', 'D': 'sub', 'i': '1999-001BC', 'j': '58861.51,58861.5105', 'r': '60', 's': '3', 't': '10'}}
SW = {'k': 'EGHITV', 'v': 'NT'}
LOC = '-29.25,-70.5,2400'
BADV = {'k': [('l', '91,0,0', '91'), ('l', '-90.5,0,0', '90.5'), ('l', '0,nan,0', 'nan'), ('p', '361,0', '361'), ('p', '-1,0', '-1'), ('p', '0,-90.5', '90.5'), ('p', '0,91', '91'), ('r', 'nan', 'nan'), ('r', 'inf', 'inf'),
              ('j', '1e9', '1e9'), ('j', 'nan', 'nan'), ('d', '2020-13-01T00:00:00', '2020-13-01'), ('d', '2020-02-30T00:00:00', '2020-02-30'), ('d', '2020-01-01T24:00:00', '2020-01-01T24'),
              ('t', '1e10', '1e10'), ('t', 'nan', 'nan'), ('Z', '', '-Z'), ('q', '1', '-q'), ('2', '', '-2'), ('v', 'erbose', '-verbose'), ('-', 'help', '--help')],
        'v': [('l', '91,0,0', '91'), ('l', '-90.5,0,0', '90.5'), ('l', '0,inf,0', 'inf'), ('r', 'nan', 'nan'), ('j', '1e9,1e9', '1e9'), ('j', '58861.5', '58861.5'), ('d', '2020-13-01T00:00:00,2020-13-01T00:01:00', '2020-13'),
              ('d', '2020-01-01T00:00:00', '2020-01-01'), ('t', '0', "'0'"), ('t', '-5', '-5'), ('t', '1e10', '1e10'), ('t', 'nan', 'nan'), ('Z', '', '-Z'), ('q', '1', '-q'), ('H', '', '-H'), ('V', '', '-V'), ('-', 'help', '--help')]}
# other ways to write the same values (altitude limits may come in either order)
ALT = {'k': {'a': ['20000,-100', '-1e2,2e4', '20000.0,-100.00', '+2e4,-1e2'], 'j': ['58900.250', '+58900.25', '5.890025e4'], 'n': ['03', '+3'], 'p': ['200.50,-30.250', '2.005e2,-3.025e1', '+200.5,-030.25'],
             'r': ['75.0', '7.5e1', '+75', '075'], 's': ['03', '00003', '+3'], 't': ['-40.0', '-4e1', '-040'], 'l': ['-29.250,-70.50,2400.0', '-29.25,289.5,2400', '-2.925e1,-70.5,2.4e3', '-29.25,649.5,2400', '-29.25,-430.5,+2400']},
       'v': {'a': ['850,-100', '-1e2,8.5e2', '850.0,-100.00'], 'j': ['58861.510,58861.51050', '+58861.51,5.88615105e4'], 'r': ['60.0', '6e1', '+60', '060'], 's': ['03', '00003', '+3'], 't': ['10.0', '1e1', '+10', '010'],
             'l': ['-29.250,-70.50,2400.0', '-29.25,289.5,2400', '-2.925e1,-70.5,2.4e3', '-29.25,649.5,2400']}}
CAT = [Sat('ALPHA', '00001', '98067A'), Sat('BETA', '00002', '99001BC', deep=True), Sat('ALTO', '00003', '20001A'), Sat('GAMMA', 'A0004', '21002C'), Sat('DELTA', '00005', '21003C'),
       Sat('ALMA', '00006', '21004C')]
SUB = [Sat('ALSUB', '00003', '99001BC'), Sat('SUB', '00007', '20009A')]
FILES = {'c.tle': sky.text(CAT), 'l.lst': 'c.tle\n', 'sub/c.tle': sky.text(SUB), 'sub/l.lst': 'c.tle\n'}
STUBS = []


def mkstubs():
    """Satellites all around at different altitudes, lit and dark, moving."""
    st = []
    for k in range(1, 8):
        n = 100004 if k == 4 else k
        lat, lon, alt = [(-29, -70, 700.0), (-20, -60, 35000.0), (-32, -66, 900.0), (-60, 100, 25000.0), (80, 0, 500.0), (-25, -80, 1500.0), (-35, -75, 21000.0)][k - 1]
        kn = []
        for d in (-400, -1, 0, 1, 400):
            kn.append((JD + d,) + M.geo_to_pos(lat + d * 0.01, lon + 7 * d / 400, alt, JD))
        st.append((n, 0, kn))
    return st


def worker_init(w):
    global SRV
    d = C.build.scratch(str(w))
    SRV = {'k': vlib.Srv(EXE['k'], d + '/k'), 'v': vlib.Srv(EXE['v'], d + '/v')}


NAME = {'k': 'sat_skymap', 'v': 'sat_visibility'}


def run(tool, argv):
    """(canonical document without the echo, exit code, echo problem)."""
    r = SRV[tool].run(argv, FILES, STUBS)
    if r.sig:
        return ('signal', r.sig), None
    try:
        doc = r.json()
    except Exception:
        return ('text', r.rc, r.out), None
    echo = doc.pop('run_command', None)
    prob = None if echo == ' '.join([NAME[tool]] + list(argv)) else 'run_command %r' % echo
    return (json.dumps(doc, sort_keys=True), r.rc), prob


def variants(opts, f, full):
    """opts: [(letter, value or None)]: every order x spelling x file position."""
    for perm in itertools.permutations(opts):
        vals = [i for i, (o, v) in enumerate(perm) if v is not None]
        if full:
            spell = itertools.product((0, 1), repeat=len(vals))
        else:
            spell = [(0,) * len(vals), (1,) * len(vals)]
        for sp in spell:
            d = dict(zip(vals, sp))
            a = []
            for i, (o, v) in enumerate(perm):
                if v is None:
                    a.append('-' + o)
                elif d[i]:
                    a += ['-' + o, v]
                else:
                    a.append('-' + o + v)
            yield [f] + a
            if a and a[0].startswith('-'):
                yield a + [f]


def run_group(job):
    tool, opts, f, full, kind, exp = job
    bad, n, ref, refargv = [], 0, None, None
    if kind == 'alt':
        for k, os_ in enumerate(opts):
            argv = [f] + [x if v is None else x + v for x, v in (('-' + o, v) for o, v in os_)]
            got, prob = run(tool, argv)
            n += 1
            if k == 0:
                ref, refargv = got, argv
            elif got != ref and run(tool, argv)[0] != run(tool, refargv)[0]:
                bad.append(('value', 'differs from %s: %s / %s' % (' '.join(refargv), *diff(ref, got)), argv))
        return bad, n, ref
    for argv in variants(opts, f, full):
        got, prob = run(tool, argv)
        n += 1
        if prob:
            bad.append(('echo', prob, argv))
        if ref is None:
            ref, refargv = got, argv
            if got[0] == 'signal':
                bad.append(('crash', 'signal %r' % got[1], argv))
        elif got != ref:
            if run(tool, argv)[0] != run(tool, refargv)[0]:
                bad.append(('order', 'differs from %s: %s / %s' % (' '.join(refargv), diff(ref, got)[0], diff(ref, got)[1]), argv))
        if kind == 'bad':
            try:
                d = json.loads(got[0])
                ok = d['status'] < 0 and exp in d['errmsg'] and got[1] != 0
                t = 'status %r exit %r %r' % (d['status'], got[1], d['errmsg'])
            except Exception:
                ok, t = False, 'no document: %r' % (got[-1] if isinstance(got[-1], int) else got[-1][:80],)
            if not ok and run(tool, argv)[0] == got:
                bad.append(('diagnosis', 'bad option not answered with a negative status naming it (%s)' % t, argv))
        if len(bad) > 20:
            break
    return bad, n, ref


def diff(a, b):
    """First difference of two results."""
    try:
        x, y = json.loads(a[0]), json.loads(b[0])
    except Exception:
        return repr(a)[:100], repr(b)[:100]
    for k in sorted(set(x) | set(y)):
        if x.get(k) != y.get(k):
            return '%s: %r' % (k, str(x.get(k))[:120]), '%r' % str(y.get(k))[:120]
    return 'exit %r' % a[1], '%r' % b[1]


def optset(tool, letters):
    return [(o, VAL[tool][o] if o in VAL[tool] else None) for o in letters] + [('l', LOC)]


def main(c):
    global C, EXE, STUBS
    C = c
    STUBS = mkstubs()
    EXE = {'k': c.build.server('sat_skymap'), 'v': c.build.server('sat_visibility')}
    jobs = []
    for tool in 'kv':
        al = ''.join(VAL[tool]) + SW[tool]
        for size in range(0, 4 if not THOROUGH else 5):
            for s in itertools.combinations(al, size):
                full = size < 3 or THOROUGH and size == 3 or tool == 'v'
                if tool == 'k' and size == 4 and not any(x in s for x in 'siSa'):
                    continue
                for f in (('c.tle', '@l.lst') if size < 3 else ('@l.lst',) if size % 2 else ('c.tle',)):
                    jobs.append((tool, optset(tool, s), f, full, 'eq', None))
        for o in ALT[tool]:
            for size in range(0, 3 if not THOROUGH else 4):
                for s in itertools.combinations([x for x in al if x != o], size):
                    base = optset(tool, s + ((o,) if o != 'l' else ()))
                    jobs.append((tool, [base] + [[(x, v if x == o else w) for x, w in base] for v in ALT[tool][o]], 'c.tle', False, 'alt', o))
        for o, v, exp in BADV[tool]:
            for size in (0, 1, 2):
                for s in itertools.combinations(al, size):
                    if o in s or size == 2 and not THOROUGH and (s[0] not in 'sHNj' and s[1] not in 'sHNj'):
                        continue
                    opts = optset(tool, s)
                    if o == 'l':
                        opts = opts[:-1]
                    # a date makes the MJD ignored; so a bad MJD is no error then
                    if o == 'j' and 'd' in s:
                        continue
                    # an unknown option is one word
                    known = o in VAL[tool] or o == 'l'
                    opts = opts + ([(o, v)] if known else [(o + v, None)])
                    jobs.append((tool, opts, 'c.tle', size < 2, 'bad', exp))
    res = vlib.pmap(run_group, jobs, chunk=4, init=worker_init)
    docs = {}
    n = 0
    for j, (bad, k, ref) in zip(jobs, res):
        n += k
        if j[4] == 'eq':
            docs[j[0], frozenset(o for o, v in j[1]), j[2]] = ref
        for key, t, argv in bad[:2]:
            c.violation('C06:%s:%s:%s' % (key, j[0], ' '.join(argv)), t + '  [%s]' % ' '.join(argv), {'argv': argv, 'tool': j[0]})
    # documented precedences between sets
    prec = 0
    for (tool, s, f), ref in docs.items():
        for winner, loser in (('d', 'j'), ('D', 'T')) + ((('E', 'p'), ('s', 'a'), ('i', 'a')) if tool == 'k' else ()):
            if winner in s and loser in s:
                o = docs.get((tool, s - {loser}, f))
                if o is None:
                    continue
                prec += 1
                if o != ref:
                    x = diff(o, ref)
                    c.violation('C06:precedence:%s:%s:%s' % (tool, winner + loser, ''.join(sorted(s))), '-%s does not override -%s with options %s: %s / %s' %
                                (winner, loser, ''.join(sorted(s)), x[0], x[1]), {'tool': tool, 'options': sorted(s), 'values': VAL[tool], 'file': f})
    # every option takes effect somewhere (so that equality means something)
    for tool in 'kv':
        for o in list(VAL[tool]) + list(SW[tool]):
            if not any(o in s and docs.get((tool, s - {o}, f)) not in (None, r) for (t, s, f), r in docs.items() if t == tool):
                print('option', o, 'of', tool, 'never changes the document')
                if not c.viol:
                    c.violation('C06:no-effect:%s:%s' % (tool, o), 'option -%s of %s never changes the document' % (o, NAME[tool]), {'option': o})
    c.cov.update(evaluations=n, distinct_nontrivial=n - len(jobs), option_sets=len(jobs), precedence_pairs=prec, distinct_documents=len(set(docs.values())), exhaustive=True,
                 rule='all option sets up to size 3 (plus -l) of each tool, all permutations, attached / detached spellings (all combinations up to size 2, all-attached and '
                      'all-detached at size 3), file first / last; other spellings of each value (numbers, altitude limits in either order, longitude modulo 360) '
                      'with every set up to size 2; every bad option with every set up to size 2 containing it; documents compared within a set and '
                      'across sets for the precedences. Non-trivial: every run beyond the first of its set (each is compared)',
                 samples=[' '.join(next(variants(j[1], j[2], j[3]))) for j in (jobs[7], jobs[len(jobs) // 4], jobs[-1]) if j[4] != 'alt'])
    c.assump += ['options given twice are outside the property', 'positions scripted through the SGP4/SDP4 link seam']


vlib.main('C06', 'exploration', main)
