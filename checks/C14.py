#!/usr/bin/env python3
"""C14: HEALPix maps in FITS files, round trip and storage faults."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import vlib


def main(c):
    b = c.build
    o = b.objs([vlib.HPX + '/chealpix.c', vlib.VERIF + '/harness/c14.c'], 'plain', ['-DENABLE_FITSIO'], 'F')
    exe = b.dir + '/c14'
    b.run(['gcc', '-g', '-rdynamic', '-Wl,--wrap=malloc'] + o + ['-o', exe, '-lcfitsio', '-lm', '-ldl'])
    cnt, samples = vlib.run_slices(c, exe, 24)
    c.cov.update(evaluations=3 * cnt.get('maps', 0) + cnt.get('faults', 0), distinct_nontrivial=cnt.get('maps', 0) + cnt.get('faults_reported', 0), exhaustive=True,
                 samples=samples, **cnt,
                 rule='maps: every nside 1..33 (thorough 128) and 9 larger x ring/nested x 12 coordinate strings x 4 value patterns, written, read and size-queried in separate processes; '
                      'faults on 4 (5) maps: every call of every stdio primitive of the FITS library failing, every project allocation failing, storage full after every byte count '
                      '(kernel file-size limit), file truncated to every length before reading and before the size query; a case passes when the process reports failure and exits '
                      'non-zero, or when it succeeds and the right map is there')
    c.assump += ['CFITSIO as installed; NaN (returned as the HEALPix null value) and subnormal values (flushed by CFITSIO) are outside the value alphabet']


vlib.main('C14', 'fault_enumeration', main)
