/* C12: every element set of a product grid, at every time of a list, in every model, against the published equations, against the derivative of the position,
   against the two-body orbit and against the other model of the class; model choice; error codes; state vectors against an independent integration. */
#include "vh.h"
#include "orbits.h"
#include "refsgp4.h"
static long long neval, nder, nsel, nerr, nstate, nsets;
static double odd, wp[NMODEL], wv[NMODEL], wd[NMODEL], wc[3], wx[3];
static double len(const double *a) { return sqrt(a[0] * a[0] + a[1] * a[1] + a[2] * a[2]); }
static double dist(const double *a, const double *b) { double d[3] = {a[0] - b[0], a[1] - b[1], a[2] - b[2]}; return len(d); }
static rel mean(const tle_t *t) { rel r = {t->epoch, t->xincl, t->xnodeo, t->eo, t->omegao, t->xmo, t->xno, t->bstar}; return r; }
static rpos ref(int m, const tle_t *t, double ts, double step)
{
  rel r = mean(t);
  switch (m) { case MSGP: return r_sgp(&r, t->xndt2o, t->xndd6o, ts); case MSGP4: return r_sgp4(&r, ts, 0, step); case MSGP8: return r_sgp8(&r, ts, 0, step); case MSDP4: return r_sgp4(&r, ts, 1, step); default: return r_sgp8(&r, ts, 1, step); }
}
static int isnum(const double *x, int n) { for (int i = 0; i < n; i++) if (!isfinite(x[i])) return 0; return 1; }
static const char *desc(int m, const tle_t *t, double ts)
{
  static char b[300];
  sprintf(b, "%s i=%.9g node=%.9g e=%.9g argp=%.9g M=%.9g deg n=%.12g rev/d bstar=%g ndot/2=%g epoch JD %.6f t=%.9g min", MNAME[m], t->xincl / D2R, t->xnodeo / D2R, t->eo, t->omegao / D2R, t->xmo / D2R, t->xno * 720 / PI, t->bstar, t->xndt2o, t->epoch, ts);
  return b;
}
static int nv[8];
#define BAD(k, key, ...) do { if (nv[k]++ < 12) viol(key, __VA_ARGS__); } while (0)
/* one request judged against the reference; the answer is left in x (1 if a position was given) */
static int judge(int m, const tle_t *t, const double *par, double ts, double *x)
{
  double q[N_SAT_PARAMS];
  memcpy(q, par, sizeof q);
  for (int i = 0; i < 6; i++) x[i] = NAN;
  int rc = m_pos(m, ts, t, q, x, x + 3);
  rpos r = ref(m, t, ts, 720);
  neval++;
  if (r.phase > 1e6 || ((m == MSGP8 || m == MSDP8) && (fabs(r.e) > .95 || t->eo > .95))) r.margin = 0;              /* angles without meaning */
  int failed = rc < 0 && rc != -3 && rc != -4, m8 = m == MSGP8 || m == MSDP8;
  if (!isnum(x, 6)) { BAD(0, "nan", "%s: position or velocity is not a number, return code %d", desc(m, t, ts), rc); return 0; }
  if (failed) {
    nerr++;
    if (len(x) || len(x + 3)) BAD(1, "error-position", "%s: error code %d with position %g %g %g", desc(m, t, ts), rc, x[0], x[1], x[2]);
    if (!r.err && r.margin > 1e-6) BAD(1, "error", "%s: error code %d although the model gives a position %.1f %.1f %.1f", desc(m, t, ts), rc, r.p[0], r.p[1], r.p[2]);
    else if (r.err && rc != r.err && !m8 && r.margin > 1e-6 && !(rc == -1 && r.err == -2) && !(rc == -2 && r.err == -1)) BAD(1, "error-code", "%s: error code %d, expected %d", desc(m, t, ts), rc, r.err);
    return 0;
  }
  if (r.err) { if (r.margin > 1e-6) BAD(2, "no-error", "%s: return code %d and position %.1f %.1f %.1f, but the model has no position (%d)", desc(m, t, ts), rc, x[0], x[1], x[2], r.err); return 0; }
  if (!m8) {
    int w = r.perigee < 1 && r.apogee < 1 ? -3 : r.perigee < 1 || r.apogee < 1 ? -4 : 0;
    if (rc != w && fabs(r.perigee - 1) > 1e-8 && fabs(r.apogee - 1) > 1e-8) BAD(3, "warning", "%s: return code %d, perigee %.3f apogee %.3f Earth radii", desc(m, t, ts), rc, r.perigee, r.apogee);
  } else if (rc) BAD(3, "warning", "%s: return code %d", desc(m, t, ts), rc);
  double dp = dist(x, r.p), dv = dist(x + 3, r.v), E = fmin(fabs(r.e), .999), amp = r.sens > 1 ? r.sens : 1;
  /* the 8-models solve Kepler's equation to 1e-6; everything else is rounding, amplified for tiny orbits and near the parabola */
  double ka = fabs(r.a) * R_RE, kn = R_KE / pow(fabs(r.a), 1.5), rnd = 4e-15 * amp * r.phase;
  if (r.perigee < .5 || r.a > 100 || r.phase > 1e6) return 1;                  /* nonsense far below the surface: only its signalling matters */
  double a0 = pow(R_KE / t->xno, 2. / 3), blown = odd > 0 ? odd : fmax(r.a / a0, a0 / r.a) > 1.5 ? 1e-8 : 0;    /* drag polynomials far outside their range amplify rounding */
  double tp = 1e-4 + blown * ka + ka * rnd, tv = 1e-5 + blown * ka * kn + ka * kn * rnd * sqrt(amp);
  if (m8 && (E > .95 || t->eo > .95)) return 1;                  /* ten steps of their Kepler iteration do not always suffice */
  if (m8) { double a = r.a * R_RE, n = R_KE / pow(r.a, 1.5), vp = a * n * sqrt((1 + E) / (1 - E)); tp += 3e-6 * a / (1 - E); tv += 3e-6 * vp / ((1 - E) * (1 - E)); }
  if (dp / tp > wp[m]) { wp[m] = dp / tp; if (getenv("C12W") && dp > tp) printf("# %s p %g/%g\n", desc(m, t, ts), dp, tp); }
  if (dv / tv > wv[m]) { wv[m] = dv / tv; if (getenv("C12W") && dv > tv) printf("# %s v %g/%g\n", desc(m, t, ts), dv, tv); }
  if (!(dp <= tp)) BAD(4, "equations", "%s: position %.6f %.6f %.6f is %.6f km from the published equations (%.6f %.6f %.6f)", desc(m, t, ts), x[0], x[1], x[2], dp, r.p[0], r.p[1], r.p[2]);
  else if (!(dv <= tv)) BAD(4, "velocity-equations", "%s: velocity %.8f %.8f %.8f km/min is %.8f from the published equations", desc(m, t, ts), x[3], x[4], x[5], dv);
  return 1;
}
/* velocity is the derivative of the position (five-point rule) up to the short-period terms the model leaves out of it */
static void derivative(int m, const tle_t *t, const double *par, double ts, const double *x)
{
  static const double H[] = {-2, -1, 1, 2}, W[] = {1. / 12, -8. / 12, 8. / 12, -1. / 12};
  double d[3] = {0, 0, 0}, h = .5;
  for (int k = 0; k < 4; k++) {
    double q[N_SAT_PARAMS], y[3];
    memcpy(q, par, sizeof q);
    int rc = m_pos(m, ts + H[k] * h, t, q, y, NULL);
    if (rc < 0 && rc != -3 && rc != -4) return;
    for (int i = 0; i < 3; i++) d[i] += W[k] * y[i] / h;
  }
  nder++;
  rpos r = ref(m, t, ts, 720);
  double E = fmin(fabs(r.e), .99), p = r.a * (1 - E * E), n = R_KE / pow(r.a, 1.5), v = len(x + 3), j = R_J2 / (p * p), a = r.a * R_RE;
  double tol = v * (j * (m == MSGP ? 3 : m == MSDP4 || m == MSDP8 ? 1.2 : .3) * (1 + 12 * E) + 1e-5) ;
  /* lunar-solar terms, truncation of the rule, Kepler tolerance of the 8-models */
  if (m >= MSDP4) tol += v * 2e-4 * pow(r.a / 6.6, 1.5) * (1 + 3 * E);
  double wpg = n / pow(1 - E, 1.5);
  tol += a * n * pow(wpg * h, 4) * 4 / 30;
  if (m == MSGP8 || m == MSDP8) tol += 3e-6 * a / (1 - E) / h * 1.5;
  double e = dist(d, x + 3);
  if (e / tol > wd[m]) { wd[m] = e / tol; if (getenv("C12W")) printf("# %s d %g/%g v %g j %g\n", desc(m, t, ts), e, tol, v, j); }
  if (!(e <= tol)) BAD(5, "derivative", "%s: velocity %.7f %.7f %.7f km/min, derivative of the position %.7f %.7f %.7f", desc(m, t, ts), x[3], x[4], x[5], d[0], d[1], d[2]);
}
/* two-body orbit of the mean elements at epoch */
static void twobody(int m, const tle_t *t, const double *x)
{
  rel s = mean(t);
  double no = 2 * PI / r_period(&s), a = pow(R_KE / no, 2. / 3), e = s.e, E = r_kepler(r_wrap(s.m), e, 0), xp = a * (cos(E) - e), yp = a * sqrt(1 - e * e) * sin(E), u[3];
  double cw = cos(s.w), sw = sin(s.w), cn = cos(s.node), sn = sin(s.node), ci = cos(s.i), si = sin(s.i);
  u[0] = (xp * (cn * cw - sn * ci * sw) + yp * (-cn * sw - sn * ci * cw)) * R_RE;
  u[1] = (xp * (sn * cw + cn * ci * sw) + yp * (-sn * sw + cn * ci * cw)) * R_RE;
  u[2] = (xp * si * sw + yp * si * cw) * R_RE;
  double d = dist(u, x), p = a * (1 - e * e), tol = 60 * (1 + e) / p / (1 - e);
  if (m >= MSDP4) tol += 80 * pow(a / 6.6, 2.5) * (1 + 6 * e) / (1 - e) + 60;
  int k = m >= MSDP4;
  if (d / tol > wc[k]) { wc[k] = d / tol; if (getenv("C12W")) printf("# %s c %g/%g\n", desc(m, t, 0), d, tol); }
  if (!(d <= tol)) BAD(6, "two-body", "%s: position %.1f %.1f %.1f at epoch, two-body orbit of the elements %.1f %.1f %.1f", desc(m, t, 0), x[0], x[1], x[2], u[0], u[1], u[2]);
}
static void cross(int m, const tle_t *t, double ts, const double *x, const double *y)
{
  rpos r = ref(m >= MSDP4 ? MSDP4 : MSGP4, t, ts, 720);
  double tol, d = dist(x, y), E = t->eo;
  if (m == MSGP) tol = (5 + 40 * E) / pow(1 - E, 2) * (1 + fabs(ts) / 1440) / pow(r.a, 2) ;
  else tol = (.8 + 160 * E) / (1 - E);
  int k = m == MSGP ? 0 : m == MSGP8 ? 1 : 2;
  if (d / tol > wx[k]) { wx[k] = d / tol; if (getenv("C12W")) printf("# %s x %g/%g\n", desc(m, t, ts), d, tol); }
  if (!(d <= tol)) BAD(7, "models", "%s: %.3f km from the 4-model", desc(m, t, ts), d);
}
static const double TN[] = {0, 1, -1.5, 23, 45, -90, 360, -720, 1440, 4321, -10080, 43200}, TD[] = {0, 5, -29, 360, -719, 721, 1440, -1445, 10081, -25000, 60000, 700000};
static void one(const tle_t *t, int deep, const double *T, int nt, unsigned models, int full)
{
  double p[NMODEL][N_SAT_PARAMS], x[NMODEL][6];
  int ok[NMODEL] = {0};
  nsets++;
  for (int m = deep ? MSDP4 : MSGP; m <= (deep ? MSDP8 : MSGP8); m++) if (models >> m & 1) { memset(p[m], 0x55, sizeof p[m]); m_init(m, p[m], t); }
  for (int i = 0; i < nt; i++) {
    for (int m = deep ? MSDP4 : MSGP; m <= (deep ? MSDP8 : MSGP8); m++) if (models >> m & 1) {
      ok[m] = judge(m, t, p[m], T[i], x[m]);
      if (ok[m] && full && t->bstar == 0 && fabs(T[i]) < 1e5 && t->xincl < 3.05) derivative(m, t, p[m], T[i], x[m]);
      if (ok[m] && full && !T[i] && t->xincl < 3.05) twobody(m, t, x[m]);
    }
    if (full && t->bstar == 0 && t->xincl < 3.05 && fabs(T[i]) <= 1440) {
      if (!deep && ok[MSGP] && ok[MSGP4]) cross(MSGP, t, T[i], x[MSGP], x[MSGP4]);
      if (!deep && ok[MSGP8] && ok[MSGP4]) cross(MSGP8, t, T[i], x[MSGP8], x[MSGP4]);
      if (deep && ok[MSDP8] && ok[MSDP4]) cross(MSDP8, t, T[i], x[MSDP8], x[MSDP4]);
    }
  }
}
static long long job;
static int mine(void) { return ((uint64_t)job++ * 2654435761u >> 20) % vh_n == (unsigned)vh_slice; }
#define N(a) ((int)(sizeof a / sizeof *a))
static void grid_near(void)
{
  static const double I[] = {0, 3, 28.5, 51.6, 63.4349488, 89.9, 90, 98, 116.565, 144, 172, 179}, EC[] = {0, 1e-6, 5e-5, 9.99e-5, 1.01e-4, 1e-3, .01, .05, .1, .2, .3, .5, .64}, NM[] = {6.41, 7.5, 9, 11, 13, 14.5, 15.5, 16.2, 16.6, 17};
  static const double ND[] = {0, 100, 190, 280}, W[] = {0, 45, 90, 135, 200, 270, 315}, MA[] = {0, 30, 90, 179, 180, 200, 270, 359}, B[] = {0, 2e-5, 1e-3, -1e-4, .02};
  int st = vh_thorough ? 1 : 3, c = 0;
  for (int i = 0; i < N(I); i++) for (int e = 0; e < N(EC); e++) for (int n = 0; n < N(NM); n++) for (int b = 0; b < N(B); b++) {
    if (pow(R_KE / (NM[n] * PI / 720), 2. / 3) * (1 - EC[e]) < 1.002) continue;
    if (!mine()) continue;
    for (int d = 0; d < N(ND); d++) for (int w = 0; w < N(W); w++) for (int m = 0; m < N(MA); m++) {
      if (c++ % st) continue;
      tle_t t = elem(2458862.25 + .1 * w - 3000 * (m & 3), I[i], ND[d], EC[e], W[w], MA[m], NM[n], B[b]);
      if (m & 1) { t.xndt2o = B[b] * 1e-8; t.xndd6o = B[b] * 1e-13 * (d - 1); }
      one(&t, 0, TN, N(TN), 7, b < 2 && c % 2 == 0);
    }
  }
}
/* perigee heights around the borders of the density and drag formulations; drag around the border of the SGP8 formulation */
static void grid_low(void)
{
  static const double I[] = {10, 51.6, 90, 130}, EC[] = {0, 9.9e-5, .001, .02, .15, .4}, H[] = {60, 80, 96, 97.9, 98.1, 99.5, 105, 120, 140, 155.9, 156.1, 175, 200, 219.9, 220.1, 240, 300};
  for (int i = 0; i < N(I); i++) for (int e = 0; e < N(EC); e++) for (int h = 0; h < N(H); h++) if (mine()) for (int w = 0; w < 4; w++) for (int b = 0; b < 24; b++) {
    double a = (1 + H[h] / R_RE) / (1 - EC[e]), bs = (b & 1 ? -1 : 1) * 1e-7 * pow(2.1, b / 2 + (b & 1) * .5);
    rel r = {0, I[i] * D2R, 0, EC[e], 0, 0, 0, 0};
    double lo = .001, hi = .09;                   /* mean motion of this height after the Brouwer correction */
    for (int k = 0; k < 60; k++) { r.n = .5 * (lo + hi); if (pow(R_KE / (2 * PI / r_period(&r)), 2. / 3) > a) lo = r.n; else hi = r.n; }
    tle_t t = elem(2458862.25 + w, I[i], 100 * w, EC[e], 80 * w + 20, 110 * w + b, 1, b < 22 ? bs : 0);
    t.xno = lo;
    if (r_period(&r) >= 225) continue;
    one(&t, 0, TN, N(TN) - 2, 7, 0);
  }
}
static const double NDP[] = {6.39, 5, 3.7, 2.5, 2.11764, 2.1176, 2.05, 2.0056, 1.95, 1.8932, 1.8928, 1.5, 1.2005, 1.1995, 1.1, 1.0027, .97, .9, .8005, .7995, .7, .3};
static void grid_deep(void)
{
  static const double I[] = {0, .02, 2.99, 3.01, 7, 11.45, 11.47, 28, 63.4, 90, 117, 150, 178}, EC[] = {0, 1e-5, .001, .02, .15, .4, .499, .501, .6, .649, .651, .699, .701, .714, .716, .75, .85};
  static const double ND[] = {0, 75, 170, 290}, W[] = {0, 70, 130, 190, 270, 340}, MA[] = {0, 40, 110, 180, 250, 355}, B[] = {0, 1e-4, -3e-4};
  int st = vh_thorough ? 1 : 4, c = 0;
  for (int i = 0; i < N(I); i++) for (int e = 0; e < N(EC); e++) for (int n = 0; n < N(NDP); n++) {
    double a = pow(R_KE / (NDP[n] * PI / 720), 2. / 3);
    if (a * (1 - EC[e]) < 1.002) continue;
    if (!mine()) continue;
    for (int d = 0; d < N(ND); d++) for (int w = 0; w < N(W); w++) for (int m = 0; m < N(MA); m++) {
      if (c++ % st) continue;
      tle_t t = elem(2458862.25 + 97.3 * w - 2500.7 * m + 4000 * d, I[i], ND[d], EC[e], W[w], MA[m], NDP[n], B[(d + w + m) % 3]);
      one(&t, 1, TD, N(TD) - (NDP[n] < .6 || (c & 7) ? 1 : 0), 24, (c >> 2 & 3) == 0 && NDP[n] > .6);
    }
  }
}
/* orbits which decay, dive or turn hyperbolic; exact resonance borders; inclination borders */
static void grid_odd(void)
{
  static const double I[] = {0, 45, 98, 150, 179.9, 180}, EC[] = {0, 1e-4, .05, .3, .6, .9, .97, .98, .985, .99, .9985, .999, .99999, .9999985, .9999999}, NM[] = {.05, .5, 1.0027, 2.0056, 4, 8, 12, 15, 16, 16.5, 17, 17.2, 18, 20, 40};
  static const double W[] = {0, 45, 90, 200, 270}, MA[] = {0, 100, 180, 300}, B[] = {0, .01, -.01, .9, -.9}, T[] = {0, 60, -60, 1440, -1440, 20000, -20000, 400000, -400000};
  for (int i = 0; i < N(I); i++) for (int e = 0; e < N(EC); e++) for (int n = 0; n < N(NM); n++) for (int b = 0; b < N(B); b++) {
    if (!mine()) continue;
    for (int w = 0; w < N(W); w++) for (int m = 0; m < N(MA); m++) for (int dp = 0; dp < (I[i] > 179 ? 1 : 2); dp++) {
      tle_t t = elem(2458862.25 + w, I[i], 77 * m, EC[e], W[w], MA[m], NM[n], B[b]);
      t.xndt2o = B[b] * 1e-6; t.xndd6o = B[b] * -1e-11;
      one(&t, dp, T, N(T), 31, 0);
    }
  }
}
/* automatic model choice on both sides of 225 minutes */
static void choice(void)
{
  static const double I[] = {0, 10, 28.5, 45, 54.7, 63.4, 90, 116, 125.3, 150, 180}, EC[] = {0, 1e-6, .001, .01, .05, .1, .2, .3, .4, .5, .6, .7, .8, .9};
  static const char TY[] = {'0', '1', ' ', '2', '4', '3', '5', 'H', '6', '9', 'J'};
  for (int i = 0; i < N(I); i++) for (int e = 0; e < N(EC); e++) {
    if (!mine()) continue;
    rel r = {0, I[i] * D2R, 0, EC[e], 0, 0, 0, 0};
    double lo = .01, hi = .1;                     /* radians per minute */
    for (int k = 0; k < 100; k++) { r.n = .5 * (lo + hi); if (r_period(&r) >= 225) lo = r.n; else hi = r.n; }
    static const double F[] = {1e-9, -1e-9, 1e-7, -1e-7, 1e-5, -1e-5, 1e-3, -1e-3, 3e-2, -3e-2, .2, -.2, .5, -.5, 1.4, -.9};
    for (int k = 0; k < N(F); k++) for (int y = 0; y < N(TY); y++) for (int a = 0; a < 4; a++) {
      tle_t t = elem(2458862, I[i], 90 * a, EC[e], 90 * a, 45 * a, 1, 1e-4 * a);
      t.xno = lo * (1 + F[k]); t.ephemeris_type = TY[y];
      int want = TY[y] == '2' || TY[y] == '4' ? 0 : TY[y] == '3' || TY[y] == '5' || TY[y] == 'H' ? 1 : F[k] < 0, got = select_ephemeris(&t);
      nsel++;
      r.n = t.xno;
      if (got != want) BAD(7, "choice", "i=%g e=%g n=%.12g rad/min (period %.9f min) type '%c': select_ephemeris gives %d, expected %d", I[i], EC[e], t.xno, r_period(&r), TY[y], got, want);
    }
  }
  if (mine()) {
    static const double B[][2] = {{0, .1}, {-.01, .1}, {.06, -.1}, {.06, 1.1}};
    for (int k = 0; k < N(B); k++) { tle_t t = elem(2458862, 50, 0, B[k][1], 0, 0, 1, 0); t.xno = B[k][0]; nsel++; if (select_ephemeris(&t) >= 0) BAD(7, "choice-bad", "n=%g e=%g accepted", B[k][0], B[k][1]); }
  }
}
/* test cases of Spacetrack Report 3 */
static void spacetrack(void)
{
  if (!mine()) return;
  static const struct { int m, deep; double t, p[3]; } V[] = {
    {MSGP, 0, 0, {2328.96594238, -5995.21600342, 1719.97894287}}, {MSGP4, 0, 0, {2328.97048951, -5995.22076416, 1719.97067261}}, {MSGP4, 0, 360, {2456.10705566, -6071.93853760, 1222.89727783}},
    {MSGP8, 0, 0, {2328.87265015, -5995.21289063, 1720.04884338}}, {MSDP4, 1, 0, {7473.37066650, 428.95261765, 5828.74786377}}, {MSDP8, 1, 0, {7469.47631836, 415.99390792, 5829.64318848}}};
  tle_t a = elem(2444514.48708465, 72.8435, 115.9689, .0086731, 52.6988, 110.5714, 16.05824518, 6.6816e-5), b = elem(2444468.28438403, 46.7916, 230.4354, .7318036, 47.4722, 10.4117, 2.28537848, 1.4311e-2);
  a.xndt2o = .00073094 * 2 * PI / 1440 / 1440; a.xndd6o = .13844e-3 * 2 * PI / 1440 / 1440 / 1440;
  a.epoch = 2444514.48708465; b.epoch = 2444468.28438403;
  for (int k = 0; k < N(V); k++) {
    tle_t *t = V[k].deep ? &b : &a;
    double p[N_SAT_PARAMS], x[6];
    m_init(V[k].m, p, t);
    m_pos(V[k].m, V[k].t, t, p, x, x + 3);
    rpos r = ref(V[k].m, t, V[k].t, 720);
    double d = dist(x, V[k].p), dr = dist(r.p, V[k].p);
    if (getenv("C12W")) printf("# spacetrack %s t=%g %g km, reference %g km\n", MNAME[V[k].m], V[k].t, d, dr);
    if (!(d < (V[k].deep ? 15 : .1))) BAD(4, "spacetrack", "%s t=%g: %.5f %.5f %.5f, published %.5f %.5f %.5f", MNAME[V[k].m], V[k].t, x[0], x[1], x[2], V[k].p[0], V[k].p[1], V[k].p[2]);
  }
}
/* state-vector form: Earth, Moon and Sun as points (Meeus, chapters 25 and 47, largest terms), any step */
static void bodies(double jd, double *moon, double *sun)
{
  double T = (jd - 2451545) / 36525, L = 218.3164477 + 481267.88123421 * T, M = 357.5291092 + 35999.0502909 * T, P = 134.9633964 + 477198.8675055 * T, D = 297.8501921 + 445267.1114034 * T, F = 93.2720950 + 483202.0175233 * T, S = 280.46646 + 36000.76983 * T;
#define SD(x) sin(fmod(x, 360) * D2R)
#define CD(x) cos(fmod(x, 360) * D2R)
  double lon = L + 6.288774 * SD(P) + 1.274027 * SD(2 * D - P) + .658314 * SD(2 * D) + .213618 * SD(2 * P) - .185116 * SD(M) - .114332 * SD(2 * F);
  double lat = 5.128122 * SD(F) + .280602 * SD(P + F) + .277693 * SD(P - F) + .173237 * SD(2 * D - F), r = 385000.56e3 - 20905.355e3 * CD(P) - 3699.111e3 * CD(2 * D - P) - 2955.968e3 * CD(2 * D) - 569.925e3 * CD(2 * P);
  double sl = S + 1.914602 * SD(M), sr = 149597870.7e3 * (1 - .016708634 * CD(M)), c = CD(23.4392911), k = SD(23.4392911), v[2][3] = {{r * CD(lat) * CD(lon), r * CD(lat) * SD(lon), r * SD(lat)}, {sr * CD(sl), sr * SD(sl), 0}};
  for (int b = 0; b < 2; b++) { double *o = b ? sun : moon; o[0] = v[b][0]; o[1] = v[b][1] * c - v[b][2] * k; o[2] = v[b][1] * k + v[b][2] * c; }
}
static void accel(double jd, const double *x, double *a)
{
  double o[2][3], r = len(x);
  static double lj, lo[2][3];
  if (jd != lj) { bodies(jd, lo[0], lo[1]); lj = jd; }
  memcpy(o, lo, sizeof o);
  for (int i = 0; i < 3; i++) a[i] = -3.9860044e14 * x[i] / (r * r * r);
  for (int b = 0; b < 2; b++) {
    double gm = b ? 1.3271243994e20 : 4.902798e12, d = dist(o[b], x), q = len(o[b]);
    for (int i = 0; i < 3; i++) a[i] += gm * ((o[b][i] - x[i]) / (d * d * d) - o[b][i] / (q * q * q));
  }
}
static void propagate(const tle_t *t, double days, double step, double *x)       /* x: km, km/min */
{
  double s[6], jd = t->epoch;
  memcpy(s, &t->xincl, sizeof s);
  for (double left = days; left;) {
    double h = fabs(left) > step ? copysign(step, left) : left, k[4][6], y[6], S = h * 86400;
    for (int j = 0; j < 4; j++) {
      double f = j == 0 ? 0 : j == 3 ? 1 : .5;
      for (int i = 0; i < 6; i++) y[i] = s[i] + (j ? f * S * k[j - 1][i] : 0);
      memcpy(k[j], y + 3, 24); accel(jd + f * h, y, k[j] + 3);
    }
    for (int i = 0; i < 6; i++) s[i] += S / 6 * (k[0][i] + 2 * k[1][i] + 2 * k[2][i] + k[3][i]);
    jd += h; left -= h;
  }
  for (int i = 0; i < 3; i++) { x[i] = s[i] / 1000; x[3 + i] = s[3 + i] * .06; }
}
static double wh;
static void state_one(const tle_t *t, const double *T, int nt)
{
  double p[N_SAT_PARAMS];
  memset(p, 0x55, sizeof p);
  SDP4_init(p, t);
  if (select_ephemeris(t) != 1) BAD(7, "choice", "state vector: select_ephemeris gives %d", select_ephemeris(t));
  for (int i = 0; i < nt; i++) {
    double x[6], y[3], c[6], f[6], q[N_SAT_PARAMS];
    memcpy(q, p, sizeof q);
    int rc = SDP4(T[i] * 1440, t, q, x, x + 3), r2 = SDP4(T[i] * 1440, t, q, y, NULL);
    nstate++;
    propagate(t, T[i], 1, c); propagate(t, T[i], 1. / 32, f);
    /* the step of the integration is the program's affair: what it costs with steps of a day is allowed */
    double tp = 1.2 * dist(c, f) + 1e-4 + 1e-6 * fabs(T[i]) * fabs(T[i]), tv = 1.2 * dist(c + 3, f + 3) + 1e-7 + 1e-9 * fabs(T[i]), d = dist(x, f), dv = dist(x + 3, f + 3);
    if (tp < 1000) { double e = d / tp; if (e > wh) { wh = e; if (getenv("C12W")) printf("# state %g %g %g m %g %g %g m/s epoch %g t=%g d h %g/%g\n", t->xincl, t->xnodeo, t->eo, t->omegao, t->xmo, t->xno, t->epoch, T[i], d, tp); } }
    if (rc || r2 || !(d <= tp) || !(dv <= tv) || memcmp(x, y, 24))
      BAD(5, "state-vector", "state %.0f %.0f %.0f m %g %g %g m/s, t=%g d: code %d/%d, position %.4f %.4f %.4f km (%.4f %.4f %.4f without velocity), %.5f km and %.3g km/min from the integration of the Earth, the Moon and the Sun (%.4f %.4f %.4f; allowed %.5f, %.3g)", t->xincl, t->xnodeo, t->eo, t->omegao, t->xmo, t->xno, T[i], rc, r2, x[0], x[1], x[2], y[0], y[1], y[2], d, dv, f[0], f[1], f[2], tp, tv);
  }
}
static void states(void)
{
  static const double R[] = {6e7, 1.2e8, 2.2e8, 3.9e8, 8e8, 1.6e9}, V[] = {0, .5, 1, 1.35, 1.6}, EP[] = {2458862.25, 2451545, 2462000.7}, T[] = {0, 1e-3, -.04, .25, .999, 1, 1.5, -1, -2.25, 7.3, -10, 30};
  for (int a = -1; a <= 1; a++) for (int b = -1; b <= 1; b++) for (int c = -1; c <= 1; c++) if (a || b || c) for (int r = 0; r < N(R); r++) for (int e = 0; e < N(EP); e++) {
    if (!mine()) continue;
    for (int v = 0; v < N(V); v++) for (int w = 0; w < 4; w++) {
      if (!v && w) continue;
      if (!vh_thorough && (v + w + r + e) % 2) continue;
      double l = sqrt(a * a + b * b + c * c), vv = V[v] * sqrt(3.986e14 / R[r]), g = w * PI / 2 + .3, u[3] = {a / l, b / l, c / l}, h[3] = {c ? -c : b, c ? 0 : -a, a}, k[3];
      if (!c) h[2] = 0;
      double hl = len(h);
      for (int i = 0; i < 3; i++) h[i] /= hl;
      k[0] = u[1] * h[2] - u[2] * h[1]; k[1] = u[2] * h[0] - u[0] * h[2]; k[2] = u[0] * h[1] - u[1] * h[0];
      tle_t t = state(EP[e], R[r] * u[0], R[r] * u[1], R[r] * u[2], vv * (cos(g) * h[0] + sin(g) * k[0]), vv * (cos(g) * h[1] + sin(g) * k[1]), vv * (cos(g) * h[2] + sin(g) * k[2]));
      state_one(&t, T, N(T));
    }
  }
  /* passages of the Moon */
  for (int e = 0; e < N(EP); e++) for (int k = 0; k < 6; k++) if (mine()) {
    double m[3], s[3];
    bodies(EP[e], m, s);
    m[k / 2] += k & 1 ? 3e7 : -3e7;
    tle_t t = state(EP[e], m[0], m[1], m[2], 300, -200, 700);
    state_one(&t, T, 9);
  }
}
/* reference positions for the other programs: H x y z vx vy vz epoch jd | 0/1 i node e argp M n bstar epoch jd */
static int refmode(void)
{
  char k;
  double v[9], x[6];
  while (scanf(" %c", &k) == 1) {
    for (int i = 0; i < (k == 'H' ? 8 : 9); i++) if (scanf("%lf", v + i) != 1) return 1;
    if (k == 'H') { tle_t t = state(v[6], v[0], v[1], v[2], v[3], v[4], v[5]); double y[6]; propagate(&t, v[7] - v[6], 1. / 64, x); propagate(&t, v[7] - v[6], 1, y); printf("%d %.9f %.9f %.9f\n", dist(x, y) > .2 ? 9 : 0, x[0], x[1], x[2]); }
    else {
      tle_t t = elem(v[7], v[0], v[1], v[2], v[3], v[4], v[5], v[6]);
      rel e = mean(&t);
      int deep = k == 'D' ? 1 : k == 'N' ? 0 : r_period(&e) >= 225;
      rpos o = r_sgp4(&e, (v[8] - v[7]) * 1440, deep, 720);
      printf("%d %.9f %.9f %.9f\n", o.err, o.p[0], o.p[1], o.p[2]);
    }
  }
  return 0;
}
int main(int argc, char **argv)
{
  if (argc > 1 && !strcmp(argv[1], "ref")) return refmode();
  vh_args(argc, argv);
  const char *only = argc > 4 ? argv[4] : "";
  if (!*only || *only == 'n') { grid_near(); grid_low(); }
  if (!*only || *only == 'd') grid_deep();
  if (!*only || *only == 'o') { odd = 3e-8; grid_odd(); odd = 0; }
  if (!*only || *only == 'c') { choice(); spacetrack(); }
  if (!*only || *only == 's') states();
  vh_count("element_sets", nsets); vh_count("evaluations", neval); vh_count("derivatives", nder); vh_count("model_choices", nsel); vh_count("error_returns", nerr); vh_count("state_vector_cases", nstate);
  if (vh_slice == 0) {
    for (int m = 0; m < NMODEL; m++) vh_sample("%s: largest deviation / allowance: position %.3g, velocity %.3g, derivative %.3g", MNAME[m], wp[m], wv[m], wd[m]);
    vh_sample("two-body %.3g near, %.3g deep; cross-model SGP %.3g, SGP8 %.3g, SDP8 %.3g; state vectors %.3g of the allowance", wc[0], wc[1], wx[0], wx[1], wx[2], wh);
  }
  return 0;
}
