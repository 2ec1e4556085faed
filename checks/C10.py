#!/usr/bin/env python3
"""C10: catalogue number coding, all 34^5 codes."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import vlib


def main(c):
    exe = c.build.harness('c10')
    cnt, samples = vlib.run_slices(c, exe)
    if cnt.get('codes', 0) != 34 ** 5 and not c.viol:
        c.violation('C10:incomplete', 'only %d codes enumerated' % cnt.get('codes', 0))
    c.cov.update(evaluations=cnt.get('decodes', 0), distinct_nontrivial=cnt.get('codes', 0) + cnt.get('blank_and_invalid', 0), codes=cnt.get('codes', 0),
                 exhaustive=True, samples=samples,
                 rule='all 34^5 codes in the documented order, each decoded by parse_elements and compared with its rank in that order (which makes the map a '
                      'bijection onto 0..45435423); again with a digit as the next column; every leading-blank spelling; every invalid character in every position')


vlib.main('C10', 'exploration', main)
