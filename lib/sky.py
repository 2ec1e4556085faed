"""Scenario builders for the two tools: catalogues whose satellites sit where we want them."""
import math
import model as M
from vlib import tle

STEP = (0.4, 0.6)     # the scripted position jumps between these fractions of delta_time


def cat_text(sats, eol='\n'):
    """sats: [(name or None, norad, intl)] -> TLE text; near and deep orbits in turn."""
    out = []
    for k, (name, nor, intl) in enumerate(sats):
        l1, l2 = tle(nor, intl, n=(15.5, 2.0, 6.45, 6.35)[k % 4])
        if name is not None:
            out.append(name)
        out += [l1, l2]
    return ''.join(x + eol for x in out)


def place(jd, lat, lon, ht, ra, dec, dist, j2000=True):
    """ECI-of-date position (km) of an object seen at J2000 (or of-date) ra, dec (deg) at distance dist."""
    v = M.vec(ra, dec)
    if j2000:
        v = M.to_date(jd, v)
    o = M.observer(jd, lat, lon, ht)
    return tuple(o[i] + dist * v[i] for i in range(3))


def knots(jd0, dt, p0, p1=None):
    """Stub track: p0 at jd0, p1 at jd0 + dt seconds (step in between)."""
    if p1 is None or dt == 0:
        return [(jd0,) + tuple(p0)]
    a, b = sorted((jd0 + STEP[0] * dt / 86400, jd0 + STEP[1] * dt / 86400))
    if dt < 0:
        p0, p1 = p1, p0
    return [(a,) + tuple(p0), (b,) + tuple(p1)]


def offset(ra, dec, bearing, sep):
    """Point at great-circle separation sep in direction bearing from (ra, dec), degrees."""
    b, s = math.radians(bearing), math.radians(sep)
    d = math.radians(dec)
    n = (-math.sin(d) * math.cos(math.radians(ra)), -math.sin(d) * math.sin(math.radians(ra)), math.cos(d))
    e = (-math.sin(math.radians(ra)), math.cos(math.radians(ra)), 0.0)
    c = M.vec(ra, dec)
    v = tuple(math.cos(s) * c[i] + math.sin(s) * (math.cos(b) * n[i] + math.sin(b) * e[i]) for i in range(3))
    return M.radec(v)


def topo(jd, lat, lon, ht, pos):
    """J2000 (ra, dec, distance) and of-date (ra, dec) of a position seen from the site."""
    o = M.observer(jd, lat, lon, ht)
    v = tuple(pos[i] - o[i] for i in range(3))
    d = math.sqrt(sum(x * x for x in v))
    rd = M.radec(v)
    return M.radec(M.to_j2000(jd, v)) + (d,), rd


def entries(doc):
    return doc.get('satellites', [])


def decode_norad(code):
    """Catalogue number of a five-character code: digits (blanks as zeros), or Alpha-5 (letter = 10.. without I, O)."""
    c = code.replace(' ', '0')
    if c[0].isdigit():
        return int(c)
    return 10000 * (10 + 'ABCDEFGHJKLMNPQRSTUVWXYZ'.index(c[0])) + int(c[1:])


def desig(intl):
    """1998-067A for columns 98067A."""
    intl = intl.rstrip()
    return ('19' if int(intl[:2]) >= 57 else '20') + intl[:2] + '-' + intl[2:]


class Sat:
    """One catalogue entry: text, and what a correct reader says of it."""

    def __init__(self, name, code, intl, deep=False, **kw):
        self.name, self.code, self.intl = name, code, intl
        self.n = decode_norad(code)
        self.l1, self.l2 = tle(code, '%-8s' % intl, n=2.0 if deep else 15.5, **kw)
        self.shown = (name or '').rstrip()[:24].rstrip()
        self.desig = desig(intl)

    def lines(self):
        return ([self.name] if self.name is not None else []) + [self.l1, self.l2]

    def key(self):
        return (self.shown, self.desig, self.n)


class Raw:
    """Lines that are not an entry."""

    def __init__(self, *lines):
        self.raw = list(lines)

    def lines(self):
        return self.raw


def text(items, eol='\n'):
    return ''.join(l + eol for it in items for l in it.lines())


def ekey(e):
    return (e['name'], e['intl_desig'], e['norad_n'])
