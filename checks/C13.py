#!/usr/bin/env python3
"""C13: HEALPix indexing."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import vlib


def main(c):
    exe = c.build.harness('c13')
    cnt, _ = vlib.run_slices(c, exe, 16)
    c.cov.update(evaluations=cnt.get('directions', 0) + cnt.get('conversions', 0) + cnt.get('border_directions', 0) + cnt.get('error_cases', 0),
                 distinct_nontrivial=cnt.get('pixels_full', 0) + cnt.get('pixels_structured', 0) + cnt.get('border_directions', 0),
                 exhaustive=True, samples=['nside 2 nest 47 <-> ring 47', 'nside 2^29 face 11 (0,0)', 'theta=acos(-2/3), phi=2pi-1ulp'], **cnt,
                 rule='every pixel of nside 1..256 (thorough 2048) and of 21 other ring resolutions; pixels with structured face coordinates (0, 2^j, 2^j-1, n-2^j, n/3, ...) of every '
                      'power of two up to 2^29 and 17 other resolutions; per pixel: both conversions, both centres and 9 inner directions by angle (longitude + 2 pi k) and by vector '
                      '(several lengths), both interfaces and the parent resolution, against an integer model; directions within ulps of all base borders, poles and '
                      'longitude multiples of pi/8 must get a pixel in range that touches them; all non-powers of two <= 20000; all pixel counts up to the bound')


vlib.main('C13', 'exploration', main)
