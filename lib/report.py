"""Judges of the reported quantities shared by the checks: each returns a list of (field, text)."""
import math
import model as M


def near(a, b, tol):
    return abs(a - b) <= tol


def judge_sun(s, jd, site, gmst=None, target=None):
    """Sun object of either tool at jd seen from (lat, lon, ht); target (ra, dec of date, deg) for separation_deg."""
    bad = []
    lat, lon = site[0], site[1]
    ra, dec = M.sun_radec(jd)
    if not (0 <= s['ra'] <= 360):
        bad.append(('sun-ra-range', 'Sun RA %r' % s['ra']))
    e = M.angle(M.vec(s['ra'], s['dec']), M.vec(ra, dec))
    if e > 0.021:
        bad.append(('sun-position', 'Sun at %.3f %.3f, expected %.3f %.3f (off %.3f deg)' % (s['ra'], s['dec'], ra, dec, e)))
    g = M.gmst_h(jd) * 15
    if not -180 <= s['lon'] <= 180 or M.adiff(s['lon'], s['ra'] - g) > 2.5e-3:
        bad.append(('sun-lon', 'sub-solar longitude %r, expected %.3f' % (s['lon'], (s['ra'] - g + 180) % 360 - 180)))
    alt, az, q = M.altaz(s['ra'], s['dec'], (g + lon) / 15, lat)
    if abs(s['alt'] - alt) > 2.5e-3:
        bad.append(('sun-alt', 'Sun altitude %r, expected %.3f' % (s['alt'], alt)))
    c = math.cos(math.radians(alt))
    if not 0 <= s['az'] <= 360 or M.adiff(s['az'], az) * c > 3e-3:
        bad.append(('sun-az', 'Sun azimuth %r, expected %.3f' % (s['az'], az)))
    if abs(lat) < 89.9999 and M.adiff(s['parang'], q) * c > 4e-3:
        bad.append(('sun-parang', 'Sun parallactic angle %r, expected %.3f' % (s['parang'], q)))
    if target is None:
        target = (g + lon, lat)
    sep = M.angle(M.vec(*target), M.vec(s['ra'], s['dec']))
    if abs(s['separation_deg'] - sep) > 2.5e-3:
        bad.append(('sun-separation', 'Sun separation %r, expected %.3f' % (s['separation_deg'], sep)))
    return bad


def judge_geoloc(g, pos, jd):
    bad = []
    la, lo, al, th = M.geoloc(pos, jd)
    coslat = math.cos(math.radians(la))
    if not -180 <= g['lon'] <= 180:
        bad.append(('lon-range', 'longitude %r' % g['lon']))
    if not -90 <= g['lat'] <= 90 or abs(g['lat'] - la) > 6e-4:
        bad.append(('lat', 'latitude %r, model %.4f' % (g['lat'], la)))
    if abs(g['alt'] - al) > 0.006 + (0.02 if coslat < 1e-4 else 0):
        bad.append(('alt', 'altitude %r, model %.3f' % (g['alt'], al)))
    if coslat > 1e-7:
        if M.adiff(g['lon'], lo) > 1.1e-3:
            bad.append(('lon', 'longitude %r, model %.4f' % (g['lon'], lo)))
        if M.adiff(g['theta'], th) > 6e-4:
            bad.append(('theta', 'theta %r, model %.4f' % (g['theta'], th)))
    return bad


def judge_pa(pa, a, b, tol_pos=1.1e-4):
    """PA (truncated or rounded to a degree) of the motion from printed direction a to b, degrees."""
    s = M.angle(M.vec(*a), M.vec(*b))
    if not (isinstance(pa, int) and 0 <= pa <= 360):
        return [('pa-range', 'PA %r' % pa)]
    if min(s, 180 - s) <= 90 * tol_pos:
        return []
    tol = math.degrees(tol_pos * M.D2R / math.sin(math.radians(s))) + 1.0e-4 * (1 + abs(math.sin(math.radians(a[1]))))
    c = math.cos(math.radians(min(abs(a[1]) + 5e-5, 90.0)))
    # within 1e-4 deg of a pole: the start direction moved by <= 7e-5 deg in any direction
    if c * 57.3 < 0.02:
        tol += math.degrees(math.atan2(1e-4, max(1e-9, c * 57.3))) if c * 57.3 > 1e-6 else 181
    x = M.bearing(a, b)
    lo, hi = math.floor(x - tol), math.ceil(x + tol)
    if not any((pa - k) % 360 == 0 for k in range(lo, hi + 1)):
        return [('pa', 'PA %r, bearing from %.4f %.4f to %.4f %.4f is %.3f' % (pa, a[0], a[1], b[0], b[1], x))]
    return []
