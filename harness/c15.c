/* C15: separation and horizontal coordinates against rotations of vectors in long double, full product grids with degenerate lines and their neighbours. */
#include "vh.h"
typedef long double ld;
double skysep_h(const double, const double, const double, const double);
void dechalat2alt(double dec, double ha, double lat, double *alt, double *az, double *parang);
void slaDh2e(double az, double el, double phi, double *ha, double *dec);
void sph2v(const double ra, const double dec, double v[3]);
static const ld PI = 3.14159265358979323846264338327950288L;
#define R2D (180 / PI)
static double ulps(double x, int k) { for (; k > 0; k--) x = nextafter(x, 1e300); for (; k < 0; k++) x = nextafter(x, -1e300); return x; }
typedef struct { double t, p; ld v[3]; } dirn;
static dirn *D; static int nd;
static void addd(double t, double p)
{
  if (p > M_PI / 2 || p < -M_PI / 2 || t < -M_PI || t > 2 * M_PI) return;
  dirn *d = &D[nd++]; d->t = t; d->p = p;
  d->v[0] = cosl(p) * cosl(t); d->v[1] = cosl(p) * sinl(t); d->v[2] = sinl(p);
}
static ld ang(const ld *a, const ld *b)
{
  ld x = a[1] * b[2] - a[2] * b[1], y = a[2] * b[0] - a[0] * b[2], z = a[0] * b[1] - a[1] * b[0];
  return atan2l(sqrtl(x * x + y * y + z * z), a[0] * b[0] + a[1] * b[1] + a[2] * b[2]);
}
static ld wrap(ld a, ld m) { a = fmodl(a, m); if (a > m / 2) a -= m; if (a < -m / 2) a += m; return fabsl(a); }
int main(int argc, char **argv)
{
  vh_args(argc, argv);
  double T[400], P[400]; int nt = 0, np = 0;
  int st = vh_thorough ? 15 : 30, sp = vh_thorough ? 10 : 15;
  static const double E[] = {1e-15, 1e-9, 1e-6, 1e-3};
  /* longitudes in both conventions */
  for (int a = -180; a <= 360; a += st) T[nt++] = a * M_PI / 180;
  static const double B[] = {0, M_PI, 2 * M_PI, -M_PI, M_PI / 2, -M_PI / 2, 1.0, -2.0};
  for (int i = 0; i < 8; i++) for (int e = 0; e < 4; e++) { T[nt++] = B[i] + E[e]; T[nt++] = B[i] - E[e]; }
  for (int i = 0; i < 4; i++) { T[nt++] = ulps(B[i], 1); T[nt++] = ulps(B[i], -1); }
  for (int a = -90; a <= 90; a += sp) P[np++] = a * M_PI / 180;
  static const double BP[] = {0, M_PI / 2, -M_PI / 2, 0.7, -0.7};
  for (int i = 0; i < 5; i++) for (int e = 0; e < 4; e++) { P[np++] = BP[i] + E[e]; P[np++] = BP[i] - E[e]; }
  D = malloc(sizeof *D * nt * np);
  for (int i = 0; i < nt; i++) for (int j = 0; j < np; j++) addd(T[i], P[j]);
  long long pairs = 0, distinct = 0, anti = 0;
  for (int i = vh_slice; i < nd; i += vh_n) for (int j = 0; j < nd; j++) {
    const dirn *a = &D[i], *b = &D[j];
    double g = skysep_h(a->t, a->p, b->t, b->p), h = skysep_h(b->t, b->p, a->t, a->p);
    ld w = ang(a->v, b->v), c = cosl(w / 2);
    /* rounding of the longitude difference, and of asin near 1 */
    ld tol = 2.5e-15L + (c > 4e-8L ? (1.2e-15L / c < 6e-8L ? 1.2e-15L / c : 6e-8L) : 6e-8L);
    pairs++; if (w > 1e-3) distinct++; if (c < 1e-6) anti++;
    if (!(fabsl(g - w * R2D) <= tol * R2D)) viol("separation", "(%.17g,%.17g)-(%.17g,%.17g): %.17g deg, angle %.17Lg", a->t, a->p, b->t, b->p, g, w * R2D);
    if (!(fabs(g - h) <= 1e-12)) viol("symmetric", "(%.17g,%.17g)-(%.17g,%.17g): %.17g and %.17g", a->t, a->p, b->t, b->p, g, h);
    if (!(g >= 0 && g <= 180.0000000001)) viol("range", "(%.17g,%.17g)-(%.17g,%.17g): %.17g", a->t, a->p, b->t, b->p, g);
    if (w > 1e-11L && !(g > 0)) viol("zero", "(%.17g,%.17g)-(%.17g,%.17g): 0 for different directions", a->t, a->p, b->t, b->p);
    if (i == j && g != 0) viol("zero", "(%.17g,%.17g): %.17g to itself", a->t, a->p, g);
  }
  vh_count("separations", pairs); vh_count("separations_distinct", distinct); vh_count("antipodal", anti);
  /* horizontal coordinates */
  double HA[500], DE[300], LA[300]; int nh = 0, n1 = 0, n2 = 0;
  for (int k = -48; k <= 48; k += vh_thorough ? 1 : 2) HA[nh++] = k * 0.5;
  for (int k = -24; k <= 24; k += 6) for (int e = 0; e < 4; e++) { HA[nh++] = k + E[e]; HA[nh++] = k - E[e]; }
  HA[nh++] = 1e-300; HA[nh++] = -1e-300; HA[nh++] = -0.0; HA[nh++] = 0.1234; HA[nh++] = 23.999999;
  for (int k = -90; k <= 90; k += vh_thorough ? 5 : 10) { DE[n1++] = k * M_PI / 180; LA[n2++] = k; }
  for (int i = 0; i < 3; i++) for (int e = 0; e < 4; e++) { DE[n1++] = BP[i] + E[e]; DE[n1++] = BP[i] - E[e]; LA[n2++] = BP[i] * 180 / M_PI + E[e]; LA[n2++] = BP[i] * 180 / M_PI - E[e]; }
  LA[n2++] = 23.4567; LA[n2++] = -65.432; DE[n1++] = 23.4567 * M_PI / 180; DE[n1++] = -65.432 * M_PI / 180;
  static const ld EZ[] = {0, 1e-12, -1e-12, 1e-8, -1e-8, 1e-4, -1e-4};
  long long nhz = 0, degen = 0;
  for (int x = 0; x < n2; x++) {
    if (fabs(LA[x]) > 90) continue;
    for (int y = 0; y < n1 + 14; y++) {
      double dec = y < n1 ? DE[y] : (double)((y - n1 < 7 ? 1 : -1) * LA[x] * PI / 180 + EZ[(y - n1) % 7]);     /* through the zenith, the nadir's declination */
      if (fabs(dec) > M_PI / 2) continue;
      for (int z = 0; z < nh; z++) {
        if ((x * 1000 + y + z) % vh_n != vh_slice) continue;
        double alt = 1e9, az = 1e9, q = 1e9, ha = HA[z], lat = LA[x];
        dechalat2alt(dec, ha, lat, &alt, &az, &q);
        nhz++;
        ld la = (ld)lat * PI / 180, h = (ld)ha * PI / 12, sd = sinl(dec), cd = cosl(dec), sl = sinl(la), cl = cosl(la);
        /* the code's own angles are double: its pi/2 is 6e-17 short of a quarter turn */
        ld e = -cd * sinl(h), n = sd * cl - cd * cosl(h) * sl, u = sd * sl + cd * cosl(h) * cl, r = sqrtl(e * e + n * n);
        ld wa = atan2l(u, r) * R2D, wz = atan2l(e, n) * R2D, s = sinl(h) * cl, t = cd * sl - sd * cosl(h) * cl, wq = atan2l(s, t) * R2D;
        ld ta = r > 1e-7L ? 1e-15L / r : 1e-7L; if (ta > 6e-8L) ta = 6e-8L; ta += 2e-15L;
        ld ts = (r > 0 ? 4e-15L / r : 10) + 1e-14L;
        if (!(fabsl(alt - wa) <= ta * R2D)) viol("altitude", "dec %.17g ha %.17g lat %.17g: altitude %.17g, expected %.17Lg", dec, ha, lat, alt, wa);
        if (!(az >= 0 && az < 360)) viol("azimuth_range", "dec %.17g ha %.17g lat %.17g: azimuth %.17g", dec, ha, lat, az);
        if (!(q >= -180.0000001 && q <= 180.0000001)) viol("parallactic_range", "dec %.17g ha %.17g lat %.17g: parallactic angle %.17g", dec, ha, lat, q);
        if (ts > 0.5) { degen++; continue; }      /* at the zenith, at the pole from the pole: undefined */
        if (!(wrap(az - wz, 360) <= ts * R2D)) viol("azimuth", "dec %.17g ha %.17g lat %.17g: azimuth %.17g, expected %.17Lg", dec, ha, lat, az, wz < 0 ? wz + 360 : wz);
        if (!(wrap(q - wq, 360) <= ts * R2D)) viol("parallactic", "dec %.17g ha %.17g lat %.17g: parallactic angle %.17g, expected %.17Lg", dec, ha, lat, q, wq);
      }
    }
  }
  /* the inverse: azimuth, altitude (radians) to hour angle, declination; and unit vectors */
  long long ninv = 0, nvec = 0;
  for (int x = 0; x < n2; x++) {
    if (fabs(LA[x]) > 90) continue;
    double phi = (double)(LA[x] * PI / 180);
    for (int y = 0; y < np; y++) {
      double el = P[y];
      if (fabs(el) > M_PI / 2) continue;
      for (int z = 0; z < nt; z++) {
        if ((x * 1000 + y + z) % vh_n != vh_slice) continue;
        double ha = 1e9, dec = 1e9, az = T[z];
        slaDh2e(az, el, phi, &ha, &dec);
        ninv++;
        ld sa = sinl(az), ca = cosl(az), se = sinl(el), ce = cosl(el), s = sinl(phi), c = cosl(phi);
        ld X = -ca * ce * s + se * c, Y = -sa * ce, Z = ca * ce * c + se * s, r = sqrtl(X * X + Y * Y);
        ld ta = (r > 1e-7L ? 1e-15L / r : 1e-7L); if (ta > 6e-8L) ta = 6e-8L; ta += 4e-15L;
        ld th = (r > 0 ? 1e-14L / r : 10) + 1e-14L;
        if (!(fabsl(dec - atan2l(Z, r)) <= ta)) viol("inverse_dec", "az %.17g el %.17g lat %.17g: declination %.17g, expected %.17Lg rad", az, el, phi, dec, atan2l(Z, r));
        if (!(ha >= -M_PI - 1e-12 && ha <= M_PI + 1e-12)) viol("inverse_ha_range", "az %.17g el %.17g lat %.17g: hour angle %.17g rad", az, el, phi, ha);
        if (th < 0.5 && !(wrap(ha - atan2l(Y, X), 2 * PI) <= th)) viol("inverse_ha", "az %.17g el %.17g lat %.17g: hour angle %.17g, expected %.17Lg rad", az, el, phi, ha, atan2l(Y, X));
        /* and forth again */
        double alt, a2, q; dechalat2alt(dec, ha * 12 / M_PI, LA[x], &alt, &a2, &q);
        if (!(fabsl(alt / R2D - el) <= 3e-7L)) viol("inverse_altitude", "az %.17g el %.17g lat %.17g: comes back with altitude %.17g deg", az, el, phi, alt);
        if (fabs(el) < 1.57 && fabs(phi) < 1.57 && !(wrap(a2 / R2D - az, 2 * PI) <= 1e-7L / ce)) viol("inverse_azimuth", "az %.17g el %.17g lat %.17g: comes back with azimuth %.17g deg", az, el, phi, a2);
      }
    }
  }
  for (int i = vh_slice; i < nd; i += vh_n) {
    double v[3] = {9, 9, 9}; sph2v((double)(D[i].t * R2D), (double)(D[i].p * R2D), v); nvec++;
    for (int k = 0; k < 3; k++) if (!(fabsl(v[k] - D[i].v[k]) <= 2e-15L)) viol("vector", "(%.17g,%.17g) deg: component %d is %.17g, expected %.17Lg", (double)(D[i].t * R2D), (double)(D[i].p * R2D), k, v[k], D[i].v[k]);
  }
  vh_count("inverse", ninv); vh_count("vectors", nvec);
  vh_count("horizontal", nhz); vh_count("horizontal_undefined", degen);
  if (!vh_slice) vh_sample("separation (0,0)-(pi,0): %.15g", skysep_h(0, 0, M_PI, 0));
  return 0;
}
