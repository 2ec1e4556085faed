/* C16: every sidereal-time computation of the package against the Aoki (1982) GMST; observer position; nutation cache histories. */
#include "vh.h"
#include <unistd.h>
#include <sys/wait.h>
#include "observe.h"
#include "norad.h"
typedef long double ld;
double lmst_hr(const double jd, double longit, double *gmst);
void ut2gmst(double ut1, double *gmst);
void ut2gast(double ut1, double *gast);
void ut2last(double ut1, double lon, double *last);
int zenith_site_ra(double ut1, double lon, double *radeg);
int zenith_site_ra_last(double ut1, double lon, double *radeg);
void earthtilt(double tjd, double *mobl, double *tobl, double *eq, double *dpsi, double *deps);
#define PI 3.14159265358979323846
#define D2R (PI / 180)
static ld gmst(double jd)              /* hours */
{
  ld d0 = floorl((ld)jd - 0.5L) + 0.5L, t = (d0 - 2451545) / 36525, s = 24110.54841L + 8640184.812866L * t + 0.093104L * t * t - 6.2e-6L * t * t * t;
  s += 1.00273790934L * 86400 * ((ld)jd - d0);
  s = fmodl(s / 3600, 24); return s < 0 ? s + 24 : s;
}
static ld dh(ld a, ld b) { a = fmodl(a - b, 24); if (a > 12) a -= 24; if (a < -12) a += 24; return fabsl(a); }
/* IAU 1980 theory of nutation, all 106 terms (Seidelmann 1982): arc seconds */
static void nut(double jd, double *psi, double *eps, double *mob)
{
  static const double N[][9] = { /* l l' F D Om, psi, psi', eps, eps' in 0.1 mas */
    {0,0,0,0,1,-171996,-174.2,92025,8.9},{0,0,2,-2,2,-13187,-1.6,5736,-3.1},{0,0,2,0,2,-2274,-0.2,977,-0.5},{0,0,0,0,2,2062,0.2,-895,0.5},
    {0,1,0,0,0,1426,-3.4,54,-0.1},{1,0,0,0,0,712,0.1,-7,0},{0,1,2,-2,2,-517,1.2,224,-0.6},{0,0,2,0,1,-386,-0.4,200,0},{1,0,2,0,2,-301,0,129,-0.1},
    {0,-1,2,-2,2,217,-0.5,-95,0.3},{-1,0,0,2,0,158,0,-1,0},{0,0,2,-2,1,129,0.1,-70,0},{-1,0,2,0,2,123,0,-53,0},{0,0,0,2,0,63,0,-2,0},{1,0,0,0,1,63,0.1,-33,0},
    {-1,0,2,2,2,-59,0,26,0},{-1,0,0,0,1,-58,-0.1,32,0},{1,0,2,0,1,-51,0,27,0},{-2,0,0,2,0,-48,0,1,0},{-2,0,2,0,1,46,0,-24,0},{0,0,2,2,2,-38,0,16,0},
    {2,0,2,0,2,-31,0,13,0},{2,0,0,0,0,29,0,-1,0},{1,0,2,-2,2,29,0,-12,0},{0,0,2,0,0,26,0,-1,0},{0,0,-2,2,0,22,0,0,0},{-1,0,2,0,1,21,0,-10,0},{0,2,0,0,0,17,-0.1,0,0},
    {0,2,2,-2,2,-16,0.1,7,0},{-1,0,0,2,1,16,0,-8,0},{0,1,0,0,1,-15,0,9,0},{1,0,0,-2,1,-13,0,7,0},{0,-1,0,0,1,-12,0,6,0},{-2,0,2,0,0,-11,0,0,0},
    {-1,0,2,2,1,-10,0,5,0},{1,0,2,2,2,-8,0,3,0},{-1,-1,0,2,0,7,0,0,0},{0,1,2,0,2,7,0,-3,0},{0,-1,2,0,2,-7,0,3,0},{0,0,2,2,1,-7,0,3,0},{-2,0,0,2,1,-6,0,3,0},
    {1,0,0,2,0,6,0,0,0},{2,0,2,-2,2,6,0,-3,0},{0,0,0,2,1,-6,0,3,0},{1,0,2,-2,1,6,0,-3,0},{0,-1,2,-2,1,-5,0,3,0},{0,0,0,-2,1,-5,0,3,0},{-1,1,0,0,0,-5,0,0,0},
    {2,0,2,0,1,-5,0,3,0},{2,0,0,-2,1,4,0,-2,0},{0,1,2,-2,1,4,0,-2,0},{-1,0,0,1,0,4,0,0,0},{0,-1,0,2,0,4,0,0,0},{-1,0,2,0,0,-4,0,0,0},{0,0,0,1,0,-4,0,0,0},
    {-2,0,2,0,2,-3,0,1,0},{-1,1,0,1,0,3,0,0,0},{1,1,0,0,0,-3,0,0,0},{1,0,2,0,0,3,0,0,0},{1,-1,2,0,2,-3,0,1,0},{-1,-1,2,2,2,-3,0,1,0},{3,0,2,0,2,-3,0,1,0},
    {0,-1,2,2,2,-3,0,1,0},{0,-2,2,-2,1,-2,0,1,0},{-2,0,0,0,1,-2,0,1,0},{1,1,2,0,2,2,0,-1,0},{-1,0,2,-2,1,-2,0,1,0},{2,0,0,0,1,2,0,-1,0},{1,0,0,0,2,-2,0,1,0},
    {3,0,0,0,0,2,0,0,0},{0,0,2,1,2,2,0,-1,0},{-1,0,2,4,2,-2,0,1,0},{2,0,-2,0,1,1,0,0,0},{-2,-1,0,2,0,-1,0,0,0},{0,0,-2,2,1,1,0,0,0},{0,1,-2,2,0,-1,0,0,0},
    {0,1,0,0,2,1,0,0,0},{-1,0,0,1,1,1,0,0,0},{0,-1,-2,2,0,1,0,0,0},{-1,0,0,0,2,1,0,-1,0},{-1,0,0,4,0,1,0,0,0},{-2,0,2,2,2,1,0,-1,0},{-2,0,0,4,0,1,0,0,0},
    {1,1,2,-2,2,1,0,-1,0},{1,0,2,2,1,-1,0,1,0},{-2,0,2,4,2,-1,0,1,0},{-1,0,4,0,2,1,0,0,0},{-1,1,0,2,0,-1,0,0,0},{2,0,2,-2,1,1,0,-1,0},{2,0,2,2,2,-1,0,0,0},
    {1,0,0,2,1,-1,0,0,0},{0,0,4,-2,2,1,0,0,0},{3,0,2,-2,2,1,0,0,0},{-1,0,-2,2,0,1,0,0,0},{0,1,2,0,1,1,0,0,0},{-1,-1,0,2,1,1,0,0,0},{0,0,-2,0,1,-1,0,0,0},
    {0,0,2,-1,2,-1,0,0,0},{0,1,0,2,0,-1,0,0,0},{-1,0,2,2,0,1,0,0,0},{0,-1,2,0,1,-1,0,0,0},{1,1,0,-2,1,-1,0,0,0},{1,0,-2,2,0,-1,0,0,0},{2,0,0,2,0,1,0,0,0},
    {0,0,2,4,2,-1,0,0,0},{0,1,0,1,0,1,0,0,0}};
  ld t = ((ld)jd - 2451545.0L) / 36525, R = 1296000;
  const ld A[5] = {485866.733L + (1325 * R + 715922.633L) * t + 31.310L * t * t + 0.064L * t * t * t, 1287099.804L + (99 * R + 1292581.224L) * t - 0.577L * t * t - 0.012L * t * t * t,
    335778.877L + (1342 * R + 295263.137L) * t - 13.257L * t * t + 0.011L * t * t * t, 1072261.307L + (1236 * R + 1105601.328L) * t - 6.891L * t * t + 0.019L * t * t * t,
    450160.280L - (5 * R + 482890.539L) * t + 7.455L * t * t + 0.008L * t * t * t};
  ld s[5][5], c[5][5];                  /* sines and cosines of 0..4 times each argument */
  for (int k = 0; k < 5; k++) for (int m = 0; m < 5; m++) { ld a = fmodl(m * A[k], R) * 3.14159265358979323846264L / 648000; s[k][m] = sinl(a); c[k][m] = cosl(a); }
  ld ps = 0, ep = 0;
  for (unsigned i = 0; i < sizeof N / sizeof *N; i++) {
    ld S = 0, C = 1;
    for (int k = 0; k < 5; k++) {
      int m = (int)N[i][k]; if (!m) continue;
      ld sm = m < 0 ? -s[k][-m] : s[k][m], cm = c[k][m < 0 ? -m : m], S2 = S * cm + C * sm;
      C = C * cm - S * sm; S = S2;
    }
    ps += (N[i][5] + N[i][6] * t) * S; ep += (N[i][7] + N[i][8] * t) * C;
  }
  *psi = (double)(ps * 1e-4L); *eps = (double)(ep * 1e-4L);
  *mob = (double)((84381.4480L - 46.8150L * t - 0.00059L * t * t + 0.001813L * t * t * t) / 3600);
}
static double maxd;
#define NEAR(key, got, want, what) do { ld d_ = dh(got, want) * 3600; if (d_ > maxd) maxd = d_; if (!(d_ <= 0.1L)) viol(key, what " at JD %.9f: %.12g h, GMST %.12Lg h", jd, (double)(got), want); } while (0)
typedef struct { double mo, to, eq, ps, ep; } tilt;
static tilt et(double jd) { tilt t; earthtilt(jd, &t.mo, &t.to, &t.eq, &t.ps, &t.ep); return t; }
static tilt fresh(double jd) { et(jd + 4000); return et(jd); }       /* the last evaluation lies 4000 days away */
int main(int argc, char **argv)
{
  vh_args(argc, argv);
  long long ninst = 0, nev = 0;
  double d1950 = 2433282.5, d2100 = 2488069.5;
  static const double F[] = {0, 1 / 86400., -1 / 86400., 1e-6, -1e-6, 0.25, 0.5, 0.5 + 1 / 86400., 0.5 - 1 / 86400., 0.5 - 1e-6, 0.75, 0.1234567, 0.9};
  static const double LON[] = {0, 1e-9, -1e-9, 90, -90, 180, -180, 179.9999, -179.9999, 45.6789, -120.5, 359.99, 270};
  int nf = sizeof F / sizeof *F, nl = sizeof LON / sizeof *LON, sub = vh_thorough ? 10 : 1;
  for (double day = d1950 + vh_slice; day <= d2100; day += vh_n) for (int f = 0; f < nf * sub; f++) {
    double jd = day + F[f % nf] + (f / nf) * (sub > 1 ? 0.0871 : 0), g = -1, l;
    ld w = gmst(jd);
    ninst++;
    for (int k = 0; k < nl; k++) {
      l = lmst_hr(jd, LON[k], &g); nev++;
      NEAR("lmst_hr", g, w, "lmst_hr GMST");
      if (!(g >= 0 && g < 24)) viol("range", "lmst_hr GMST at JD %.9f: %.17g", jd, g);
      if (!(l >= 0 && l < 24)) viol("range", "lmst_hr LMST at JD %.9f longitude %g: %.17g", jd, LON[k], l);
      if (!(dh(l, (ld)g + LON[k] / 15) < 1e-9)) viol("longitude", "lmst_hr at JD %.9f longitude %g: LMST %.12g GMST %.12g", jd, LON[k], l, g);
    }
    ut2gmst(jd, &g); nev++;
    NEAR("ut2gmst", g, w, "ut2gmst");
    if (!(g >= 0 && g < 24)) viol("range", "ut2gmst at JD %.9f: %.17g", jd, g);
    ld mj = (ld)jd - 2400000.5L; double mjd = (double)mj;
    for (int k = 0; k < nl; k++) {
      double ra; zenith_site_ra(mjd, LON[k], &ra); nev++;
      ld x = w + LON[k] / 15;
      NEAR("zenith_ra", ra / 15, x, "zenith RA");
      if (!(ra >= 0 && ra < 360)) viol("range", "zenith RA at MJD %.9f longitude %g: %.17g", mjd, LON[k], ra);
    }
    for (int k = 0; k < nl; k++) {
      double v[3]; ld x = w + LON[k] / 15; observer_cartesian_coords(jd, LON[k] * D2R, 0.75, 0.5, v); nev++;
      NEAR("observer", atan2(v[1], v[0]) * 12 / PI, x, "observer longitude");
      if (!(fabs(hypot(v[0], v[1]) - 0.75 * 6378.14) < 1e-6 && fabs(v[2] - 0.5 * 6378.14) < 1e-6)) viol("observer", "distance at JD %.9f: %.12g %.12g %.12g", jd, v[0], v[1], v[2]);
    }
    if (f < 7 && (f == 0 || f == 5 || f == 6)) {
      /* nutation quantities of this instant, from a far earlier call */
      double ps, ep, mo; nut(jd, &ps, &ep, &mo); tilt t = fresh(jd); nev++;
      if (!(fabs(t.ps - ps) < 2e-6 && fabs(t.ep - ep) < 2e-6)) viol("nutation", "JD %.9f: %.7f %.7f, IAU 1980 %.7f %.7f", jd, t.ps, t.ep, ps, ep);
      if (!(fabs(t.mo - mo) < 1e-11 && fabs(t.to - t.mo - t.ep / 3600) < 1e-12)) viol("obliquity", "JD %.9f: %.9f %.9f, expected %.9f", jd, t.mo, t.to, mo);
      if (!(fabs(t.eq - t.ps / 15 * cos(t.to * D2R)) < 1e-9)) viol("equinoxes", "JD %.9f: %.9f", jd, t.eq);
      double ga, la, gm; ut2gmst(jd, &gm); ut2gast(jd, &ga);
      if (!(dh(ga, (ld)gm + t.eq / 3600) < 2e-6 / 3600 + 1e-9)) viol("gast", "JD %.9f: GAST %.12g GMST %.12g equation of equinoxes %.9f", jd, ga, gm, t.eq);
      for (int k = 0; k < nl; k++) {
        ut2last(jd, LON[k], &la); nev++;
        if (!(dh(la, (ld)ga + LON[k] / 15) < 1e-9 && la >= 0 && la < 24)) viol("last", "JD %.9f longitude %g: LAST %.17g GAST %.12g", jd, LON[k], la, ga);
        double r; zenith_site_ra_last(mjd, LON[k], &r);
        if (!(dh(r / 15, (ld)ga + LON[k] / 15) < 1e-6 && r >= 0 && r < 360)) viol("last", "JD %.9f longitude %g: zenith RA (apparent) %.17g", jd, LON[k], r);
      }
    }
    /* Greenwich angle of the deep-space model at the epoch of the elements: one of the initialised parameters */
    if (f < nf && (f == 0 || f == 6 || f == 11)) {
      tle_t e; memset(&e, 0, sizeof e); double p[N_SAT_PARAMS]; int found = 0; ld best = 99;
      e.epoch = jd; e.xincl = 0.1; e.xnodeo = 1; e.eo = 0.01; e.omegao = 2; e.xmo = 3; e.xno = 2 * PI / 1436;
      memset(p, 0, sizeof p); SDP4_init(p, &e); nev++;
      for (int i = 0; i < N_SAT_PARAMS && !found; i++) if (p[i] > -1e3 && p[i] < 1e3) { ld d = dh(p[i] * 12 / PI, w) * 3600; if (d < best) best = d; if (d <= 0.1L) found = 1; }
      if (!found) viol("deep", "JD %.9f: no initialised parameter of SDP4 equals the Greenwich angle %.12Lg rad", jd, w * PI / 12);
    }
  }
  vh_count("instants", ninst);
  /* observer constants */
  long long nobs = 0;
  for (int a = -900; a <= 900; a += 5) for (int h = 0; h < 6; h++) {
    if ((a + 900 + h) % vh_n != vh_slice) continue;
    static const double H[] = {0, 2400, -400, 8848, 1e5, 1}; double lat = a / 10. * D2R, rc, rs;
    earth_lat_alt_to_parallax(lat, H[h], &rc, &rs); nobs++;
    double A = 6378140, B = 6356755, n = A * A / sqrt(A * A * cos(lat) * cos(lat) + B * B * sin(lat) * sin(lat));
    double wc = (n + H[h]) * cos(lat) / A, ws = (n * B * B / A / A + H[h]) * sin(lat) / A;
    if (!(fabs(rc - wc) < 1e-9 && fabs(rs - ws) < 1e-9)) viol("parallax", "latitude %.1f height %g: %.12g %.12g, expected %.12g %.12g", a / 10., H[h], rc, rs, wc, ws);
  }
  /* histories of the nutation cache: all sequences over the time alphabet; a value may be that of an instant at most 0.01 day away */
  long long nh = 0, states = 0;
  static const double O[] = {0, 0.004, -0.004, 0.0099, -0.0099, 0.0101, -0.0101, 0.02, 1, -3000, 0.5};
  int no = 11, depth = vh_thorough ? 4 : 3;
  static const double T0[] = {2451545.0, 2440000.25, 2460000.5, 2480000.123};
  for (int b = 0; b < 4; b++) {
    tilt fr[16], lo[16], hi[16];
    for (int i = 0; i < no; i++) {
      fr[i] = fresh(T0[b] + O[i]); lo[i] = hi[i] = fr[i];
      for (int k = -10; k <= 10; k++) { tilt t = fresh(T0[b] + O[i] + k * 0.00101); 
#define UPD(f) if (t.f < lo[i].f) lo[i].f = t.f; if (t.f > hi[i].f) hi[i].f = t.f;
        UPD(mo) UPD(to) UPD(eq) UPD(ps) UPD(ep) }
    }
    long tot = 1; for (int i = 0; i < depth; i++) tot *= no;
    for (long x = vh_slice; x < tot; x += vh_n) {
      et(T0[b] + 5000);
      int pre = -1;
      for (long i = 0, y = x; i < depth; i++, y /= no) {
        int o = y % no; tilt t = et(T0[b] + O[o]); states++;
#define IN(f) !(t.f >= lo[o].f - 1e-9 && t.f <= hi[o].f + 1e-9)
        if (IN(mo) || IN(to) || IN(eq) || IN(ps) || IN(ep))
          viol("cache", "JD %.4f after %s%.4f (history %ld of base %d): dpsi %.6f deps %.6f, fresh %.6f %.6f", T0[b] + O[o], pre < 0 ? "start " : "JD ", pre < 0 ? 0. : T0[b] + O[pre], x, b, t.ps, t.ep, fr[o].ps, fr[o].ep);
        tilt u = et(T0[b] + O[o]); if (memcmp(&t, &u, sizeof t)) viol("cache", "JD %.4f: repeated call differs", T0[b] + O[o]);
        pre = o;
      }
      nh++;
    }
    /* long chains of small steps in both directions */
    static const double S[] = {0.001, 0.0049, 0.0051, 0.009, 0.00999, 0.01, 0.0101, 0.015, 0.3};
    for (int q = 0; q < 18; q++) {
      if (q % vh_n != vh_slice) continue;
      double st = q < 9 ? S[q] : -S[q - 9]; int K = 3000;
      static tilt ch[3001];
      et(T0[b] + 5000);
      for (int k = 0; k < K; k++) ch[k] = et(T0[b] + k * st);
      for (int k = 0; k < K; k++) {
        tilt f = fresh(T0[b] + k * st); states++;
        if (!(fabs(f.ps - ch[k].ps) < 0.004 && fabs(f.ep - ch[k].ep) < 0.002 && fabs(f.mo - ch[k].mo) < 1e-8)) { viol("cache", "chain of steps %g from JD %.3f: step %d dpsi %.6f, fresh %.6f", st, T0[b], k, ch[k].ps, f.ps); break; }
      }
      nh++;
    }
  }
  vh_count("evaluations", nev); vh_count("observer_sites", nobs); vh_count("histories", nh); vh_count("history_states", states);
  if (!vh_slice) { double g; vh_sample("lmst_hr(2451545.0, 0) = %.10f h", lmst_hr(2451545.0, 0, &g)); vh_sample("largest difference from Aoki (1982): %.4f s", maxd); }
  return 0;
}
