#!/usr/bin/env python3
"""C09: TLE parser, every value of every field, every checksum pair, every single corruption."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import vlib


def main(c):
    exe = c.build.harness('c09')
    cnt, samples = vlib.run_slices(c, exe)
    c.cov.update(evaluations=cnt.get('parses', 0), distinct_nontrivial=cnt.get('parses', 0), exhaustive=True, samples=samples,
                 rule='encode -> parse -> compare for every value of angles, eccentricity, drag mantissa/exponent/signs, every year x day of year, every digit pair of the 8-digit fractions, every integer field value, every '
                      'character of the character fields, all extreme combinations, every base-36 digit of each state-vector component; every checksum '
                      'pair, every single-digit alteration, every illegal character, every truncation. All cases are distinct lines')
    c.assump.append('the fields of a line are read independently of each other except for the combinations enumerated')


vlib.main('C09', 'exploration', main)
