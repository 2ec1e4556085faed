#!/usr/bin/env python3
"""C15: separation and horizontal coordinates."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import vlib


def main(c):
    exe = c.build.harness('c15')
    cnt, samples = vlib.run_slices(c, exe, 16)
    c.cov.update(evaluations=2 * cnt.get('separations', 0) + cnt.get('horizontal', 0) + cnt.get('inverse', 0) + cnt.get('vectors', 0), distinct_nontrivial=cnt.get('separations_distinct', 0) + cnt.get('horizontal', 0) - cnt.get('horizontal_undefined', 0),
                 exhaustive=True, samples=samples + ['dec 0.7 ha -12 lat -90'], **cnt,
                 rule='separation: every ordered pair of a direction grid (both longitude conventions, poles, equator, antipodes, each with neighbours at 1e-15..1e-3 rad and 1 ulp); '
                      'horizontal: full product of hour angles -24..24 h, declinations and latitudes (incl. poles, the zenith line and neighbours); inverse: full product of azimuths, elevations and latitudes, and back; unit vectors of all directions; oracle: vectors in long double; '
                      'non-trivial: distinct directions / defined azimuth')


vlib.main('C15', 'exploration', main)
