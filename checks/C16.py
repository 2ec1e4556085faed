#!/usr/bin/env python3
"""C16: sidereal time and Earth rotation."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import vlib


def main(c):
    exe = c.build.harness('c16')
    cnt, samples = vlib.run_slices(c, exe, 16)
    c.cov.update(states=cnt.get('instants', 0) + cnt.get('history_states', 0), transitions=cnt.get('evaluations', 0) + cnt.get('history_states', 0),
                 traces_validated_against_impl=cnt.get('histories', 0) + cnt.get('instants', 0), exhaustive=True, samples=samples, **cnt,
                 rule='every day of 1950-2100 x 13 (thorough 130) times of day x 13 longitudes through lmst_hr, ut2gmst, zenith RA, observer position, and on three times a day the '
                      'deep-space Greenwich angle and the nutation quantities, against the Aoki (1982) and IAU 1980 formulae; all call histories of the nutation cache of '
                      'depth 3 (4) over 11 offsets around the cache width at four epochs, and chains of 3000 small steps')


vlib.main('C16', 'model_checking', main)
