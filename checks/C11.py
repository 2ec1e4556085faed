#!/usr/bin/env python3
"""C11: every history of propagation requests against a fresh process (in-process); every ordered triple of satellites in one catalogue against each alone
(real sat_skymap with the real propagators)."""
import os, sys, itertools, json
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import vlib
from vlib import THOROUGH, tle, checksum


def b36(v):
    s, n = '', abs(v)
    while n:
        s = '0123456789ABCDEFGHIJKLMNOPQRSTUVWXYZ'[n % 36] + s
        n //= 36
    return ('-' if v < 0 else '+') + s.rjust(8, '0')


def state_tle(norad, epoch, pos, vel):
    """State-vector form: metres and 1e-4 m/s."""
    l1 = '1 %05dU 20001A   %s ' % (norad, epoch)
    l1 = l1.ljust(33) + ' '.join(b36(v) for v in pos) + 'H  999'
    l2 = ('2 %05d' % norad).ljust(33) + ' '.join(b36(v) for v in vel) + '     1'
    l1, l2 = l1[:68].ljust(68), l2[:68].ljust(68)
    return l1 + str(checksum(l1)), l2 + str(checksum(l2))


SATS = [tle(1, epoch='20013.50000000', incl=51.6, n=15.5, bstar=' 31000-4'), tle(2, epoch='20013.20000000', incl=97.5, ecc=.004, n=16.1, bstar=' 50000-3', node=300),
        tle(3, epoch='20012.90000000', incl=28.5, ecc=.18, n=10.5, node=200, argp=300), tle(4, incl=63, ecc=.02, n=6.3, node=20, argp=45, ma=90), tle(5, incl=7, ecc=.73, n=2.25, argp=180, ma=5),
        tle(6, incl=56, n=1.86, node=160, ma=120), tle(7, incl=63.4, ecc=.71, n=2.006, node=120, argp=270, ma=10), tle(8, incl=10, ecc=.74, n=1.99, node=300, argp=90, ma=350, epoch='20001.00000000'),
        tle(9, incl=.02, ecc=.0002, n=1.00272, node=80, argp=150, ma=200), tle(10, incl=63.4, ecc=.27, n=1.003, node=200, argp=270, ma=180, epoch='20020.00000000'),
        tle(11, incl=90, ecc=.3, n=6.6, etype='3'), tle(12, incl=70, ecc=.1, n=5.6, etype='2'), state_tle(13, '20013.50000000', (40000000, 10000000, -5000000), (-8000000, 27000000, 5000000)),
        state_tle(14, '20010.25000000', (-200000000, 150000000, 60000000), (-6000000, -5000000, 3000000))]
ARGS = [['-j58861.5', '-l-29.25,-70.5,2400', '-p100,0', '-r180', '-t40'], ['-j58866.25', '-l10,20,0', '-p0,0', '-r180', '-t-90000', '-G']]


def worker_init(w):
    global SRV
    SRV = vlib.Srv(EXE, C.build.scratch('c11_%s' % w))


def ask(order, args):
    r = SRV.run(['c.tle'] + args, {'c.tle': ''.join(a + '\n' + b + '\n' for a, b in (SATS[i] for i in order))}, [])
    try:
        d = r.json()
        return [json.dumps(x) for x in d.get('satellites', [])]
    except Exception:
        return ['no document, exit %r signal %r %s' % (r.rc, r.sig, r.out[-200:])]


def one(job):
    order, ai, base = job
    want = [base[i][0] for i in order]
    got = ask(order, ARGS[ai])
    if got != want:
        g2 = ask(order, ARGS[ai])
        if g2 != want:
            k = next((j for j, (x, y) in enumerate(zip(g2, want)) if x != y), min(len(g2), len(want)))
            return (order, ai, k, want[k:k + 1], g2[k:k + 1])
    return None


def main(c):
    global C, EXE
    C = c
    exe = c.build.harness('c11')
    cnt, samples = vlib.run_slices(c, exe, 16)
    EXE = c.build.server('sat_skymap')
    n = len(SATS)
    jobs = []
    for ai in range(len(ARGS)):
        res = vlib.pmap(alone, [(i, ai) for i in range(n)], init=worker_init)
        base = dict(enumerate(res))
        for i in range(n):
            if len(base[i]) != 1:
                c.violation('C11:alone:%d' % i, 'catalogue of one satellite in a whole-sky query yields %r' % base[i][:2], {'tle': SATS[i], 'argv': ARGS[ai]})
        if any(len(base[i]) != 1 for i in base):
            return
        for size in (2, 3) + ((4,) if THOROUGH else ()):
            for order in itertools.permutations(range(n), size):
                jobs.append((order, ai, {i: base[i] for i in order}))
    bad = [x for x in vlib.pmap(one, jobs, chunk=16, init=worker_init) if x]
    for order, ai, k, w, g in bad[:20]:
        c.violation('C11:catalogue:%s:%d' % ('-'.join(str(i + 1) for i in order), ai), 'catalogue of satellites %s, entry %d: %s, alone: %s' % (' '.join(str(i + 1) for i in order), k, g, w),
                    {'tle': [SATS[i] for i in order], 'argv': ARGS[ai], 'expected': w, 'observed': g})
    c.cov.update(states=cnt.get('histories', 0) + len(jobs), transitions=3 * cnt.get('histories', 0) + cnt.get('chain_steps', 0), traces_validated_against_impl=cnt.get('histories', 0) + len(jobs),
                 catalogues=len(jobs), exhaustive=True, samples=samples, **cnt,
                 rule='20 orbits of all classes x their models (and the exact-compatibility switch): every history of length 1-3 (thorough 4) over 41 operations (23 times with and 8 without '
                      'velocity, propagation of satellites of each class in between, reuse of the parameter block, renewed initialisation), chains of up to 250 (400) equal steps of 12 sizes from 3 '
                      'starts, alone and with a twin in between; sat_skymap with every ordered pair and triple (quadruple) of 14 satellites at two instants')
    c.assump += ['allowed: lunar-solar terms up to 30 minutes old when a request within 30 minutes came before (their change in 30 minutes, at most 0.6 km); the error of second-order resonance integration']


def alone(job):
    return ask((job[0],), ARGS[job[1]])


vlib.main('C11', 'model_checking', main)
