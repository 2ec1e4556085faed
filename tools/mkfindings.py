#!/usr/bin/env python3
"""known_findings.json from the fix: commits of /repo."""
import subprocess, json, os
MAP = [('kept every file of a list open', 'C02'),
('entirely inside the Earth', 'C12'), ('SGP judged eccentricity', 'C12'), ('SGP8 and SDP8 gave NaN', 'C12'), ('jumped when the node', 'C12'), ('of 180 degrees inclination', 'C12'), ('high-orbit model', 'C12'),
       ('epoch day without', 'C05'), ('wrong near the poles', 'C18'), ('precessed for the start epoch', 'C18'), ('write_healpix_map', 'C14'), ('|z|=2/3', 'C13'), ('very long vector', 'C13'), ('not UTF-8', 'C04'), ('npix2nside64', 'C13'), ('classification column', 'C10'), ('position delta_time after an event cannot', 'C04'), ('angle fields of a TLE', 'C05'), ('non-digit exponent', 'C05'), ('without a checksum digit', 'C09'), ('malformed state-vector', 'C09'),
       ('state-vector elements (type H)', 'C12'), ('precession near a pole', 'C18'), ('antipodal', 'C15'), ('meridian transit', 'C15'),
       ('site at a pole', 'C15'), ('Dec equals the latitude', 'C15'), ('GMST was negative', 'C16'), ('single precision constants', 'C16'),
       ('mjd2date buffer', 'C08'), ('calendar dates with fields', 'C08'), ('switches with attached', 'C05'), ('fixed-size buffers', 'C05'),
       ('echoed run_command', 'C06'), ('echoed text', 'C04'), ('documented precedence', 'C06'), ('altitude filter depended', 'C06'),
       ('selecting one satellite', 'C02'), ('duplicate check overflowed', 'C03'), ('satellite names of 23', 'C02'), ('rows of a list file', 'C03'),
       ('left the JSON document', 'C04'), ('RA differences across', 'C01'), ('position cannot be computed were', 'C12'), ('SDP4 gave a position', 'C12'),
       ('numeric option values', 'C05'), ('-n 0 returned', 'C03'), ('longitudes below', 'C18'), ('unreadable TLE or list', 'C04'),
       ('input parameters were printed', 'C07'), ('position angle and speed', 'C07'), ('MJD of the mid', 'C07'), ('end event at the horizon', 'C07'),
       ('the merged lists named', 'C22'), ('given a relative directory', 'C22'), ('tle_retrieve', 'C19'), ('tle_satcount', 'C20')]
EXTRA = []
out = []
for l in subprocess.run(['git', '-C', '/repo', 'log', '--reverse', '--format=%h %s'], capture_output=True, text=True).stdout.splitlines():
    h, s = l.split(' ', 1)
    if not s.startswith('fix: '):
        continue
    p = next((p for k, p in MAP if k in s), None)
    assert p, s
    out.append({'id': 'F%02d' % (len(out) + 1), 'property': p, 'kind': 'fixed', 'commit': h, 'text': 'fixed: property=%s %s %s' % (p, h, s[5:])})
json.dump(EXTRA + out, open(os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'known_findings.json'), 'w'), indent=1)
print(len(out))
