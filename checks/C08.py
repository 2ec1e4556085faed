#!/usr/bin/env python3
"""C08: calendar date <-> MJD, every day of 1859-9999 at boundary seconds, every second of selected days, all field values."""
import os, sys, subprocess
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import vlib

TIMEWRAP = '''
#define _GNU_SOURCE
#include <stdlib.h>
#include <time.h>
#include <sys/time.h>
static double now(void) { return atof(getenv("VNOW")); }
time_t __wrap_time(time_t *t) { time_t v = (time_t)now(); if (t) *t = v; return v; }
int __wrap_gettimeofday(struct timeval *tv, void *z) { double v = now(); tv->tv_sec = (time_t)v; tv->tv_usec = 0; return 0; }
int __wrap_clock_gettime(clockid_t c, struct timespec *ts) { double v = now(); ts->tv_sec = (time_t)v; ts->tv_nsec = 0; return 0; }
'''


def main(c):
    exe = c.build.harness('c08')
    cnt, samples = vlib.run_slices(c, exe)
    # mjdnow under a scripted clock
    open(c.build.dir + '/tw.c', 'w').write(TIMEWRAP)
    o = c.build.objs([vlib.SRC + '/mjdnow.c', c.build.dir + '/tw.c'])
    mn = c.build.dir + '/mjdnow'
    c.build.run(['gcc'] + o + ['-Wl,--wrap=time,--wrap=gettimeofday,--wrap=clock_gettime', '-o', mn, '-lm'])
    n = 0
    for t in sorted({d * 86400 + s for d in (0, 1, 10957, 18262, 20777, 24855, 24856, 49710, 80000) for s in (0, 1, 43200, 86399)} |
                    {2 ** 31 - 1, 2 ** 31, 2 ** 32 - 1, 2 ** 32, 1700000000}):
        def once():
            r = subprocess.run([mn], capture_output=True, env=dict(os.environ, VNOW=str(t), TZ='America/New_York'))
            try:
                v = float(r.stdout)
            except ValueError:
                v = float('nan')
            return abs(v - (40587 + t / 86400)) <= 1.01e-6 and r.returncode == 0, r.stdout
        ok, out = once()
        n += 1
        if not ok and not once()[0]:
            c.violation('C08:mjdnow:%d' % t, 'clock %d -> %r, expected %.6f' % (t, out, 40587 + t / 86400), {'VNOW': t})
    c.cov.update(evaluations=cnt.get('conversions', 0) + n, distinct_nontrivial=cnt.get('conversions', 0) + n, days=cnt.get('days', 0), full_days=cnt.get('full_days', 0),
                 clock_instants=n, exhaustive=True, samples=samples,
                 rule='every day of 1859-9999 x 23 seconds of day (all boundaries of hour, minute, noon, midnight) plus every second and half second of '
                      'full_days days (centuries, leap and month ends); all two-digit values of each field; every truncation, separator and first-digit '
                      'corruption; each conversion compared with an independent calendar (all distinct instants)')
    c.assump.append('the date and the time of day enter the conversion as a sum, so every day x boundary seconds plus every second of selected days stands for all seconds')


vlib.main('C08', 'exploration', main)
