"""Independent reference model of the astronomy and of the two tools (no code shared with the implementation)."""
import math
from math import sin, cos, tan, atan2, asin, acos, sqrt, pi, radians, degrees, hypot

JD_OFF = 2400000.5
ERAD = 6378.1366
FLAT = 3.352819697896193e-3
OBS_A, OBS_B = 6378.140, 6356.755          # ellipsoid of the observer
AU = 149597870.7
D2R = pi / 180
R2D = 180 / pi


def gmst_h(jd):
    """GMST in hours (Aoki et al. 1982)."""
    d0 = math.floor(jd - 0.5) + 0.5
    t = (d0 - 2451545.0) / 36525
    s = 24110.54841 + 8640184.812866 * t + 0.093104 * t * t - 6.2e-6 * t ** 3
    s += 1.00273790934 * 86400 * (jd - d0)
    return (s / 3600) % 24.0


def observer(jd, lat, lon, ht):
    """Geocentric observer position (km), true rotation of date; lat, lon deg, ht m."""
    th = radians(gmst_h(jd) * 15 + lon)
    la = radians(lat)
    n = OBS_A ** 2 / sqrt((OBS_A * cos(la)) ** 2 + (OBS_B * sin(la)) ** 2)
    h = ht / 1000
    r = (n + h) * cos(la)
    return (r * cos(th), r * sin(th), (n * (OBS_B / OBS_A) ** 2 + h) * sin(la))


def vec(ra, dec):
    """Unit vector from degrees."""
    ra *= D2R
    dec *= D2R
    c = cos(dec)
    return (c * cos(ra), c * sin(ra), sin(dec))


def radec(v):
    ra = degrees(atan2(v[1], v[0]))
    if ra < 0:
        ra += 360
    return ra, degrees(atan2(v[2], hypot(v[0], v[1])))


def angle(a, b):
    """Angle between vectors, degrees, accurate everywhere."""
    cx = a[1] * b[2] - a[2] * b[1]
    cy = a[2] * b[0] - a[0] * b[2]
    cz = a[0] * b[1] - a[1] * b[0]
    return degrees(atan2(sqrt(cx * cx + cy * cy + cz * cz), a[0] * b[0] + a[1] * b[1] + a[2] * b[2]))


_pm = {}


def prec_matrix(jd):
    """IAU 1976 precession from J2000 to date (rows)."""
    m = _pm.get(jd)
    if m:
        return m
    t = (jd - 2451545.0) / 36525
    a = D2R / 3600
    z1 = (2306.2181 * t + 0.30188 * t * t + 0.017998 * t ** 3) * a
    z2 = (2306.2181 * t + 1.09468 * t * t + 0.018203 * t ** 3) * a
    th = (2004.3109 * t - 0.42665 * t * t - 0.041833 * t ** 3) * a
    c1, s1, c2, s2, ct, st = cos(z1), sin(z1), cos(z2), sin(z2), cos(th), sin(th)
    m = ((c1 * ct * c2 - s1 * s2, -s1 * ct * c2 - c1 * s2, -st * c2),
         (c1 * ct * s2 + s1 * c2, -s1 * ct * s2 + c1 * c2, -st * s2),
         (c1 * st, -s1 * st, ct))
    if len(_pm) > 1000:
        _pm.clear()
    _pm[jd] = m
    return m


def to_date(jd, v):
    m = prec_matrix(jd)
    return tuple(m[i][0] * v[0] + m[i][1] * v[1] + m[i][2] * v[2] for i in range(3))


def to_j2000(jd, v):
    m = prec_matrix(jd)
    return tuple(m[0][i] * v[0] + m[1][i] * v[1] + m[2][i] * v[2] for i in range(3))


def prec_tol(jd, dec):
    """Allowed angular error (deg) of the documented 'approximate precession' at declination dec (deg)."""
    nt = abs((jd - 2451545.0) / 365.25 * 20.04 / 3600)          # deg
    t = abs(tan(radians(min(89.999999, abs(dec)))))
    return 2e-6 + min(nt * nt * D2R * (1 + t) * 2.5, 2.5 * nt) + nt * 0.0002


def prec_tol_ra(jd, dec):
    """Allowed error of the RA coordinate itself."""
    c = cos(radians(abs(dec)))
    nt = abs((jd - 2451545.0) / 365.25 * 20.04 / 3600)
    t = tan(radians(min(89.999999, abs(dec))))
    return 2e-6 + min(180.0, nt * nt * D2R * (1 + t) ** 2 * 1.5 + nt * 0.0003 * (1 + t))


def geoloc(pos, jd):
    """lat, lon (-180..180), alt, theta (deg, km) on the IERS 2003 ellipsoid."""
    theta = degrees(atan2(pos[1], pos[0]))
    lon = (theta - gmst_h(jd) * 15 + 180) % 360 - 180
    r = hypot(pos[0], pos[1])
    a, f = ERAD, FLAT
    e2 = f * (2 - f)
    la = atan2(pos[2], r * (1 - e2))
    for _ in range(50):
        n = a / sqrt(1 - e2 * sin(la) ** 2)
        nl = atan2(pos[2] + n * e2 * sin(la), r)
        if abs(nl - la) < 1e-15:
            la = nl
            break
        la = nl
    n = a / sqrt(1 - e2 * sin(la) ** 2)
    if r > abs(pos[2]):
        alt = r / cos(la) - n
    else:
        alt = pos[2] / sin(la) - n * (1 - e2)
    return degrees(la), lon, alt, theta


def geo_to_pos(lat, lon, alt, jd):
    """ECI position (km) of a geodetic point on the IERS ellipsoid."""
    th = radians(lon + gmst_h(jd) * 15)
    la = radians(lat)
    e2 = FLAT * (2 - FLAT)
    n = ERAD / sqrt(1 - e2 * sin(la) ** 2)
    r = (n + alt) * cos(la)
    return (r * cos(th), r * sin(th), (n * (1 - e2) + alt) * sin(la))


def sun_radec(jd):
    """Sun RA, Dec in degrees, equinox of date (Meeus ch. 25, low accuracy 0.01 deg)."""
    t = (jd - 2451545.0) / 36525
    l0 = 280.46646 + t * (36000.76983 + t * 0.0003032)
    m = radians(357.52911 + t * (35999.05029 - t * 0.0001537))
    c = (1.914602 - t * (0.004817 + 0.000014 * t)) * sin(m) + (0.019993 - 0.000101 * t) * sin(2 * m) + 0.000289 * sin(3 * m)
    lam = radians(l0 + c - 0.00569)
    eps = radians(23.439291 - 0.0130042 * t)
    return radec((cos(lam), cos(eps) * sin(lam), sin(eps) * sin(lam)))


def shadow_margin(pos, jd):
    """>0 sunlit, <0 in the Earth's shadow: distance (km) of the sat-Sun line from the Earth's sphere (ahead of the
    satellite), None if the satellite is inside the sphere."""
    s = vec(*sun_radec(jd))
    s = (s[0] * AU - pos[0], s[1] * AU - pos[1], s[2] * AU - pos[2])
    n = sqrt(s[0] ** 2 + s[1] ** 2 + s[2] ** 2)
    s = (s[0] / n, s[1] / n, s[2] / n)
    d = pos[0] * s[0] + pos[1] * s[1] + pos[2] * s[2]
    r2 = pos[0] ** 2 + pos[1] ** 2 + pos[2] ** 2
    if r2 < ERAD ** 2:
        return None
    perp = sqrt(max(0.0, r2 - d * d))
    if d >= 0:                   # Earth behind: always lit; margin grows with d
        return max(abs(perp - ERAD), d, 1.0)
    return perp - ERAD


def shadow_uncert(pos):
    """Uncertainty (km) of shadow_margin from 0.02 deg of Sun position."""
    return 0.025 * D2R * sqrt(pos[0] ** 2 + pos[1] ** 2 + pos[2] ** 2) + 0.01


def altaz(ra, dec, lst_h, lat):
    """Altitude, azimuth (0..360 N through E), parallactic angle (deg) by rotation of vectors."""
    h = radians(lst_h * 15 - ra)
    d, p = radians(dec), radians(lat)
    n = sin(d) * cos(p) - cos(d) * cos(h) * sin(p)
    e = -cos(d) * sin(h)
    u = sin(d) * sin(p) + cos(d) * cos(h) * cos(p)
    az = degrees(atan2(e, n)) % 360
    alt = degrees(atan2(u, hypot(n, e)))
    q = degrees(atan2(sin(h) * cos(p), cos(d) * sin(p) - sin(d) * cos(h) * cos(p)))
    return alt, az, q


def bearing(a, b):
    """Position angle (0..360, N through E) of the direction a -> b at a; RA/Dec in degrees."""
    da = radians(b[0] - a[0])
    d1, d2 = radians(a[1]), radians(b[1])
    return degrees(atan2(sin(da) * cos(d2), cos(d1) * sin(d2) - sin(d1) * cos(d2) * cos(da))) % 360


def flat_sep(a, b):
    dra = (a[0] - b[0] + 180) % 360 - 180
    return hypot(dra, a[1] - b[1])


def adiff(a, b):
    return abs((a - b + 180) % 360 - 180)


# ---------------------------------------------------------------- HEALPix nested index (Gorski et al. 2005), order 8
def ang2pix_nest(order, ra, dec):
    """ra, dec degrees."""
    nside = 1 << order
    z = sin(radians(dec))
    za = abs(z)
    tt = (ra % 360.0) / 90.0
    if za <= 2 / 3:
        t1 = nside * (0.5 + tt)
        t2 = nside * z * 0.75
        jp = int(math.floor(t1 - t2))
        jm = int(math.floor(t1 + t2))
        fp, fm = jp >> order, jm >> order
        if fp == fm:
            face = 4 if fp == 4 else fp + 4
        elif fp < fm:
            face = fp
        else:
            face = fm + 8
        ix = jm & (nside - 1)
        iy = nside - (jp & (nside - 1)) - 1
    else:
        nt = min(3, int(tt))
        tp = tt - nt
        c = cos(radians(dec))
        tmp = nside * c / sqrt((1 + za) / 3)
        jp = min(nside - 1, int(tp * tmp))
        jm = min(nside - 1, int((1 - tp) * tmp))
        if z >= 0:
            face, ix, iy = nt, nside - jm - 1, nside - jp - 1
        else:
            face, ix, iy = nt + 8, jp, jm
    r = 0
    for b in range(order):
        r |= ((ix >> b) & 1) << (2 * b) | ((iy >> b) & 1) << (2 * b + 1)
    return face * nside * nside + r
