/* C13: HEALPix indexing against an independent integer/projection model, all pixels of small resolutions, structured pixels up to 2^29. */
#include "vh.h"
#include "chealpix.h"
typedef long double ld;
static const int JR[12] = {2,2,2,2,3,3,3,3,4,4,4,4}, JP[12] = {1,3,5,7,0,2,4,6,1,3,5,7};
static const ld PI = 3.14159265358979323846264338327950288L;
static long long npx, ndir, nconv, nborder, nerr;
typedef struct { int64_t n; int f; int64_t x, y; } pix;
static int64_t m_nest(pix p)
{
  int64_t r = 0;
  for (int b = 0; b < 30; b++) r |= ((p.x >> b) & 1) << (2 * b) | ((p.y >> b) & 1) << (2 * b + 1);
  return p.f * p.n * p.n + r;
}
static int64_t m_ring(pix p)
{
  int64_t n = p.n, j = JR[p.f] * n - p.x - p.y - 1, nr, before;
  if (j < n) { nr = j; before = 2 * j * (j - 1); }
  else if (j > 3 * n) { nr = 4 * n - j; before = 12 * n * n - 2 * nr * (nr + 1); }
  else { nr = n; before = 2 * n * (n - 1) + (j - n) * 4 * n; }
  int64_t u = JP[p.f] * nr + p.x - p.y;
  u = ((u % (8 * nr)) + 8 * nr) % (8 * nr);
  return before + u / 2;
}
/* direction of face coordinates (x,y) in [0,n]^2 of face f */
static void m_dir(int f, ld n, ld x, ld y, ld *th, ld *ph)
{
  ld h = (JR[f] * n - x - y) / n, d = (x - y) / n;
  if (h < 1) { *th = 2 * asinl(h / sqrtl(6)); *ph = PI / 4 * (JP[f] + d / h); }
  else if (h > 3) { h = ((4 - JR[f]) * n + x + y) / n; *th = PI - 2 * asinl(h / sqrtl(6)); *ph = PI / 4 * (JP[f] + d / h); }
  else { *th = acosl((2 - h) * 2 / 3); *ph = PI / 4 * (JP[f] + d); }
  if (*ph < 0) *ph += 2 * PI;
}
static int nest_ok(int64_t n) { return (n & (n - 1)) == 0; }
/* is direction within tol (in face units) of the pixel? */
static int inside(int64_t n, int nest, int64_t p, ld th, ld ph, ld tol)
{
  pix q; q.n = n;
  if (p < 0 || p >= 12 * n * n) return 0;
  ld z = cosl(th), h, nr;
  if (z > 2.0L / 3) { h = sqrtl(6) * sinl(th / 2); nr = h; } else if (z < -2.0L / 3) { nr = sqrtl(6) * sinl((PI - th) / 2); h = 4 - nr; } else { h = 2 - 1.5L * z; nr = 1; }
  ph = fmodl(ph, 2 * PI); if (ph < 0) ph += 2 * PI;
  for (int f = 0; f < 12; f++) {
    if (nest && f != p / (n * n)) continue;
    ld u = ph * 4 / PI - JP[f];
    while (u > 4) u -= 8;
    while (u < -4) u += 8;
    ld s = JR[f] - h;
    /* beyond its own triangle a polar face does not extend; the tolerance test below rejects it */
    ld d = u * nr, x = (s + d) / 2, y = (s - d) / 2;
    if (x < -tol || y < -tol || x > 1 + tol || y > 1 + tol) continue;
    int64_t x0 = (int64_t)floorl((x - tol) * n), x1 = (int64_t)floorl((x + tol) * n), y0 = (int64_t)floorl((y - tol) * n), y1 = (int64_t)floorl((y + tol) * n);
    for (q.x = x0; q.x <= x1; q.x++) for (q.y = y0; q.y <= y1; q.y++) {
      if (q.x < 0 || q.y < 0 || q.x >= n || q.y >= n) continue;
      q.f = f;
      if ((nest ? m_nest(q) : m_ring(q)) == p) return 1;
    }
    /* at a pole all four faces meet whatever the longitude */
  }
  if (nr * n < 1e-6L) { int64_t a = z > 0 ? 0 : 12 * n * n - 4; if (!nest) return p >= a && p < a + 4; int64_t k = p / (n * n), r = p % (n * n); return z > 0 ? (k < 4 && r == n * n - 1) : (k >= 8 && r == 0); }
  return 0;
}
static ld wrapd(ld a) { a = fmodl(a, 2 * PI); if (a > PI) a -= 2 * PI; if (a < -PI) a += 2 * PI; return a; }
static void bad(const char *fn, int64_t n, int64_t want, int64_t got, double th, double ph)
{ viol(fn, "nside %lld theta %.17g phi %.17g: pixel %lld, expected %lld", (long long)n, th, ph, (long long)got, (long long)want); }
static void dir(pix p, int64_t pn, int64_t pr, ld x, ld y, int wraps)
{
  ld th, ph; int64_t n = p.n, g; long l;
  m_dir(p.f, n, p.x + x, p.y + y, &th, &ph);
  double t = (double)th; static const int W[] = {0, -1, 1, 7, -20}; static const double LEN[] = {1, 3e-4, 6.4e3, 1.7e9, 1e-250, 1e300, 1};
  if (t > M_PI) t = M_PI;
  int big = n > (1 << 20);
  for (int w = 0; w < wraps; w++) {
    if (w > 2 && big) break;             /* 20 turns away a double no longer resolves the smallest pixels well */
    double f = (double)(ph + 2 * PI * W[w]), len = LEN[(w + ndir) % 7];
    double v[3] = {(double)(len * sinl(th) * cosl(ph)), (double)(len * sinl(th) * sinl(ph)), (double)(len * cosl(th))};
    ndir++;
    if (nest_ok(n)) {
      ang2pix_nest64(n, t, f, &g); if (g != pn) bad("ang2pix_nest64", n, pn, g, t, f);
      vec2pix_nest64(n, v, &g); if (g != pn) bad("vec2pix_nest64", n, pn, g, t, f);
      if (n > 1) { ang2pix_nest64(n / 2, t, f, &g); if (g != pn / 4) bad("parent", n / 2, pn / 4, g, t, f); }
      if (n <= 8192) {
        ang2pix_nest(n, t, f, &l); if (l != pn) bad("ang2pix_nest", n, pn, l, t, f);
        vec2pix_nest(n, v, &l); if (l != pn) bad("vec2pix_nest", n, pn, l, t, f);
      }
    }
    ang2pix_ring64(n, t, f, &g); if (g != pr) bad("ang2pix_ring64", n, pr, g, t, f);
    vec2pix_ring64(n, v, &g); if (g != pr) bad("vec2pix_ring64", n, pr, g, t, f);
    if (n <= 8192) {
      ang2pix_ring(n, t, f, &l); if (l != pr) bad("ang2pix_ring", n, pr, l, t, f);
      vec2pix_ring(n, v, &l); if (l != pr) bad("vec2pix_ring", n, pr, l, t, f);
    }
  }
}
static void centre(const char *fn, int64_t n, int64_t p, double th, double ph, ld t0, ld p0)
{
  ld tol = 1e-14L + 4e-16L;
  if (n <= 8192 && !strstr(fn, "64")) { ld s = sinl(t0); tol += s < 0.2 ? 3e-16L / s : 0; }   /* acos near the poles */
  if (!(fabsl(th - t0) <= tol) || !(fabsl(wrapd(ph - p0)) <= 1e-14L)) viol(fn, "nside %lld pixel %lld: centre %.17g %.17g, expected %.17Lg %.17Lg", (long long)n, (long long)p, th, ph, t0, p0);
  if (!(ph >= 0 && ph < 2 * M_PI && th >= 0 && th <= M_PI)) viol(fn, "nside %lld pixel %lld: centre out of range %.17g %.17g", (long long)n, (long long)p, th, ph);
}
static void cvec(const char *fn, int64_t n, int64_t p, const double *v, ld t0, ld p0)
{
  ld s = sinl(t0), tol = 1e-14L; if (n <= 8192 && !strstr(fn, "64")) tol += s < 0.2 ? 3e-16L / s : 0;
  if (!(fabsl(v[0] - s * cosl(p0)) <= tol && fabsl(v[1] - s * sinl(p0)) <= tol && fabsl(v[2] - cosl(t0)) <= tol))
    viol(fn, "nside %lld pixel %lld: centre vector %.17g %.17g %.17g", (long long)n, (long long)p, v[0], v[1], v[2]);
}
static void one(pix p, int subs, int wraps)
{
  int64_t n = p.n, pn = nest_ok(n) ? m_nest(p) : -1, pr = m_ring(p), g; long l; ld t0, p0; double a, b, v[3];
  npx++;
  m_dir(p.f, n, p.x + 0.5L, p.y + 0.5L, &t0, &p0);
  if (nest_ok(n)) {
    nest2ring64(n, pn, &g); if (g != pr) viol("nest2ring64", "nside %lld nest %lld -> %lld, expected %lld", (long long)n, (long long)pn, (long long)g, (long long)pr);
    ring2nest64(n, pr, &g); if (g != pn) viol("ring2nest64", "nside %lld ring %lld -> %lld, expected %lld", (long long)n, (long long)pr, (long long)g, (long long)pn);
    pix2ang_nest64(n, pn, &a, &b); centre("pix2ang_nest64", n, pn, a, b, t0, p0);
    pix2vec_nest64(n, pn, v); cvec("pix2vec_nest64", n, pn, v, t0, p0);
    nconv += 2;
    if (n <= 8192) {
      nest2ring(n, pn, &l); if (l != pr) viol("nest2ring", "nside %lld nest %lld -> %ld, expected %lld", (long long)n, (long long)pn, l, (long long)pr);
      ring2nest(n, pr, &l); if (l != pn) viol("ring2nest", "nside %lld ring %lld -> %ld, expected %lld", (long long)n, (long long)pr, l, (long long)pn);
      pix2ang_nest(n, pn, &a, &b); centre("pix2ang_nest", n, pn, a, b, t0, p0);
      ang2pix_nest(n, a, b, &l); if (l != pn) bad("centre_nest", n, pn, l, a, b);
      pix2vec_nest(n, pn, v); cvec("pix2vec_nest", n, pn, v, t0, p0);
    }
  }
  pix2ang_ring64(n, pr, &a, &b); centre("pix2ang_ring64", n, pr, a, b, t0, p0);
  ang2pix_ring64(n, a, b, &g); if (g != pr) bad("centre_ring64", n, pr, g, a, b);
  pix2vec_ring64(n, pr, v); cvec("pix2vec_ring64", n, pr, v, t0, p0);
  double a2, b2; vec2ang(v, &a2, &b2);
  if (!(fabs(a2 - a) < 1e-14) || !(fabsl(wrapd(b2 - b)) < 1e-14) || !(b2 >= 0 && b2 <= 2 * M_PI)) viol("vec2ang", "nside %lld ring %lld: %.17g %.17g vs %.17g %.17g", (long long)n, (long long)pr, a2, b2, a, b);
  ang2vec(a, b, v); cvec("ang2vec", n, pr, v, t0, p0);
  if (n <= 8192) {
    pix2ang_ring(n, pr, &a, &b); centre("pix2ang_ring", n, pr, a, b, t0, p0);
    ang2pix_ring(n, a, b, &l); if (l != pr) bad("centre_ring", n, pr, l, a, b);
    pix2vec_ring(n, pr, v); cvec("pix2vec_ring", n, pr, v, t0, p0);
  }
  static const ld S[] = {0.5L, 1 / 16.0L, 15 / 16.0L};
  for (int i = 0; i < subs; i++) for (int j = 0; j < subs; j++) dir(p, pn, pr, S[i], S[j], i + j == 0 ? wraps : 1);
}
static double ulps(double x, int k) { for (; k > 0; k--) x = nextafter(x, 1e300); for (; k < 0; k++) x = nextafter(x, -1e300); return x; }
/* directions within a few ulps of pixel borders: index in range and pixel adjacent */
static void border(int64_t n, double th, double ph)
{
  if (!(th >= 0 && th <= M_PI)) return;
  int64_t g[8]; long l[4]; ld z = cosl(th), nr = fabsl(z) > 2.0L / 3 ? sqrtl(3 * (1 - fabsl(z))) : 1;
  double v[3] = {sin(th) * cos(ph), sin(th) * sin(ph), cos(th)};
  int k = 0; const char *nm[8]; int ne[8], lo[8];
  nborder++;
#define ADD(name, call, nest, low) do { nm[k] = name; ne[k] = nest; lo[k] = low; call; k++; } while (0)
  ADD("ang2pix_ring64", ang2pix_ring64(n, th, ph, &g[k]), 0, 0);
  ADD("vec2pix_ring64", vec2pix_ring64(n, v, &g[k]), 0, 0);
  if (n <= 8192) { ADD("ang2pix_ring", ang2pix_ring(n, th, ph, &l[0]); g[k] = l[0], 0, 1); ADD("vec2pix_ring", vec2pix_ring(n, v, &l[1]); g[k] = l[1], 0, 1); }
  if (nest_ok(n)) {
    ADD("ang2pix_nest64", ang2pix_nest64(n, th, ph, &g[k]), 1, 0);
    ADD("vec2pix_nest64", vec2pix_nest64(n, v, &g[k]), 1, 0);
    if (n <= 8192) { ADD("ang2pix_nest", ang2pix_nest(n, th, ph, &l[2]); g[k] = l[2], 1, 1); ADD("vec2pix_nest", vec2pix_nest(n, v, &l[3]); g[k] = l[3], 1, 1); }
  }
  for (int i = 0; i < k; i++) {
    ld tol = 1e-13L; if (lo[i]) { ld e = nr > 0 ? 6e-16L / nr : 3e-8L; tol += e < 3e-8L ? e : 3e-8L; }
    if (g[i] < 0 || g[i] >= 12 * n * n) viol("range", "%s nside %lld theta %.17g phi %.17g: pixel %lld out of range", nm[i], (long long)n, th, ph, (long long)g[i]);
    else if (!inside(n, ne[i], g[i], th, ph, tol)) viol("border", "%s nside %lld theta %.17g phi %.17g: pixel %lld does not contain the direction", nm[i], (long long)n, th, ph, (long long)g[i]);
  }
}
int main(int argc, char **argv)
{
  vh_args(argc, argv);
  long long c = 0;
  /* all pixels, powers of two */
  int top = vh_thorough ? 11 : 8;
  for (int k = 0; k <= top; k++) {
    pix p; p.n = 1LL << k;
    for (p.f = 0; p.f < 12; p.f++) for (p.x = 0; p.x < p.n; p.x++) { if (c++ % vh_n != vh_slice) continue; for (p.y = 0; p.y < p.n; p.y++) one(p, k <= top - 1 ? 3 : 1, k <= 6 ? 5 : 2); }
  }
  /* other resolutions: ring scheme */
  static const int NP[] = {3, 5, 6, 7, 9, 10, 11, 12, 13, 15, 17, 31, 33, 48, 63, 65, 100, 127, 129, 192, 200};
  for (unsigned i = 0; i < sizeof NP / sizeof *NP; i++) {
    pix p; p.n = NP[i];
    for (p.f = 0; p.f < 12; p.f++) for (p.x = 0; p.x < p.n; p.x++) { if (c++ % vh_n != vh_slice) continue; for (p.y = 0; p.y < p.n; p.y++) one(p, 3, 2); }
  }
  vh_count("pixels_full", npx); npx = 0;
  /* structured pixels of all larger resolutions */
  for (int k = 9; k <= 29; k++) {
    pix p; p.n = 1LL << k; int64_t C[200]; int nc = 0;
    C[nc++] = 0; C[nc++] = p.n - 1; C[nc++] = p.n / 3; C[nc++] = p.n - 3; C[nc++] = 0x15555555 & (p.n - 1); C[nc++] = 0x0aaaaaaa & (p.n - 1);
    for (int b = 0; b < k; b++) { C[nc++] = 1LL << b; C[nc++] = (1LL << b) - 1; if (b > k - 4 || vh_thorough) C[nc++] = p.n - (1LL << b); if (vh_thorough) C[nc++] = (1LL << b) + 1 < p.n ? (1LL << b) + 1 : 0; }
    for (p.f = 0; p.f < 12; p.f++) for (int i = 0; i < nc; i++) { if (c++ % vh_n != vh_slice) continue; for (int j = 0; j < nc; j++) { p.x = C[i]; p.y = C[j]; one(p, 3, 3); } }
  }
  static const int64_t NB[] = {1000, 1023, 1025, 3000, 5000, 8191, 10007, 46340, 46341, 65535, 65537, 1000003, 16777215, 268435455, 400000000, 536870909, 536870911};
  for (unsigned i = 0; i < sizeof NB / sizeof *NB; i++) {
    pix p; p.n = NB[i]; int64_t C[100]; int nc = 0;
    C[nc++] = p.n - 1; C[nc++] = p.n - 2; C[nc++] = p.n / 2; C[nc++] = p.n / 3;
    for (int b = 0; (1LL << b) <= p.n; b += 2) { C[nc++] = (1LL << b) - 1; C[nc++] = p.n - (1LL << b); }
    for (p.f = 0; p.f < 12; p.f++) for (int i = 0; i < nc; i++) { if (c++ % vh_n != vh_slice) continue; for (int j = 0; j < nc; j++) { p.x = C[i]; p.y = C[j]; if (p.x >= 0 && p.y >= 0 && p.x < p.n && p.y < p.n) one(p, 3, 3); } }
  }
  vh_count("pixels_structured", npx);
  /* borders, within ulps */
  static const int64_t NS[] = {1, 2, 3, 4, 5, 7, 8, 16, 64, 100, 256, 1024, 8192, 1LL << 20, (1LL << 24) + 1, 1LL << 29};
  for (unsigned i = 0; i < sizeof NS / sizeof *NS; i++) {
    int64_t n = NS[i]; double T[600]; int nt = 0, U = vh_thorough ? 6 : 3;
    ld Z[200]; int nz = 0;
    Z[nz++] = 2.0L / 3; Z[nz++] = -2.0L / 3; Z[nz++] = 0; Z[nz++] = 1; Z[nz++] = -1; Z[nz++] = 0.99L; Z[nz++] = -0.99L; Z[nz++] = 0.6666666L; Z[nz++] = -0.6666667L;
    for (int64_t j = 1; j < 4 * n; j = (n <= 8 ? j + 1 : j == 1 ? 2 : j * 2)) { ld h = (ld)j / n; Z[nz++] = h < 1 ? 1 - h * h / 3 : h > 3 ? (4 - h) * (4 - h) / 3 - 1 : (2 - h) * 2 / 3; if (nz > 90) break; }
    for (int q = 0; q < nz; q++) { double t = (double)acosl(Z[q]); for (int u = -U; u <= U && nt < 590; u++) T[nt++] = q == 3 ? u * 1e-17 : ulps(t, u); }
    T[nt++] = 0; T[nt++] = M_PI; T[nt++] = 1e-300;
    for (int t = 0; t < nt; t++) {
      if (c++ % vh_n != vh_slice) continue;
      for (int q = 0; q <= 16; q++) for (int w = -2; w <= 2; w++) for (int u = -U; u <= U; u++) {
        ld ph = PI / 8 * q + 2 * PI * w;
        border(n, T[t], ulps((double)ph, u));
        if (!q) { border(n, T[t], u * 1e-17); border(n, T[t], ulps((double)(2 * PI * w + PI / 4 / n), u)); border(n, T[t], ulps((double)(2 * PI * w - PI / 4 / n), u)); border(n, T[t], u * 1e-300); }
      }
    }
  }
  vh_count("border_directions", nborder);
  /* errors */
  for (long n = 1 + vh_slice; n <= 20000; n += vh_n) {
    long a = 5, b = 5; int64_t d = 5, e = 5;
    if (nest_ok(n)) continue;
    nerr++;
    if (n <= 8192) { nest2ring(n, 3, &a); ring2nest(n, 3, &b); if (a != -1 || b != -1) viol("nonpow2", "nside %ld: %ld %ld instead of -1", n, a, b); }
    nest2ring64(n, 3, &d); ring2nest64(n, 3, &e); if (d != -1 || e != -1) viol("nonpow2_64", "nside %ld: %lld %lld instead of -1", n, (long long)d, (long long)e);
    nest2ring64(n * 26800, 3, &d); ring2nest64(n * 26800 , 3, &e); if (n * 26800 <= (1 << 29) && (d != -1 || e != -1)) viol("nonpow2_64", "nside %ld: %lld %lld instead of -1", n * 26800, (long long)d, (long long)e);
  }
  long lim = vh_thorough ? 12L * 8192 * 8192 : 12L * 700 * 700;
  for (long np = 1 + vh_slice; np <= lim; np += vh_n) {
    long r = (long)sqrt(np / 12.0); while (12 * r * r > np) r--; while (12 * (r + 1) * (r + 1) <= np) r++;
    long want = 12 * r * r == np ? r : -1;
    nerr++;
    if (npix2nside(np) != want) viol("npix2nside", "%ld -> %ld, expected %ld", np, npix2nside(np), want);
    if (npix2nside64(np) != want) viol("npix2nside64", "%ld -> %ld, expected %ld", np, npix2nside64(np), want);
  }
  for (int64_t n = 1 + vh_slice; n <= (1 << 29); n += (n < 200000 || n > (1 << 29) - 100000 ? 1 : 37) * (int64_t)vh_n) {
    int64_t np = 12 * n * n; static const int D[] = {-13, -12, -11, -1, 1, 11, 12, 13, 24};
    if (nside2npix64(n) != np) viol("nside2npix64", "%lld", (long long)n);
    if (npix2nside64(np) != n) viol("npix2nside64", "12*%lld^2 -> %ld", (long long)n, npix2nside64(np));
    for (int i = 0; i < 9; i++) if ((n > 1) && npix2nside64(np + D[i]) != -1) viol("npix2nside64", "12*%lld^2%+d -> %ld, expected -1", (long long)n, D[i], npix2nside64(np + D[i]));
    if (n <= 8192) { if (nside2npix(n) != np) viol("nside2npix", "%lld", (long long)n); for (int i = 0; i < 9; i++) if (n > 1 && npix2nside(np + D[i]) != -1) viol("npix2nside", "12*%lld^2%+d", (long long)n, D[i]); }
    nerr += 10;
  }
  vh_count("error_cases", nerr); vh_count("directions", ndir); vh_count("conversions", nconv);
  return 0;
}
