/* C17: lpsun_radec against an independent low-accuracy solar theory (Meeus ch. 25, apparent place) for every hour (thorough: every
   6 minutes) of 1950-2050, range, continuity. */
#include "vh.h"
void lpsun_radec(double jd, double *ra, double *dec);
#define D (M_PI / 180)
static void sun(double jd, double *v)
{
  double t = (jd - 2451545.0) / 36525, l0 = 280.46646 + t * (36000.76983 + t * 0.0003032);
  double m = (357.52911 + t * (35999.05029 - t * 0.0001537)) * D, om = (125.04 - 1934.136 * t) * D;
  double c = (1.914602 - t * (0.004817 + 0.000014 * t)) * sin(m) + (0.019993 - 0.000101 * t) * sin(2 * m) + 0.000289 * sin(3 * m);
  double l = (l0 + c - 0.00569 - 0.00478 * sin(om)) * D, e = (23.439291 - 0.0130042 * t + 0.00256 * cos(om)) * D;
  v[0] = cos(l); v[1] = cos(e) * sin(l); v[2] = sin(e) * sin(l);
}
static double ang(const double *a, const double *b)
{
  double x = a[1] * b[2] - a[2] * b[1], y = a[2] * b[0] - a[0] * b[2], z = a[0] * b[1] - a[1] * b[0];
  return atan2(sqrt(x * x + y * y + z * z), a[0] * b[0] + a[1] * b[1] + a[2] * b[2]) / D;
}
int main(int argc, char **argv)
{
  vh_args(argc, argv);
  int per = vh_thorough ? 240 : 24;
  long long d0 = (long long)(vh_days(1950, 1, 1)), d1 = vh_days(2050, 12, 31) + 1, n = 0, q[4] = {0};
  long long a = d0 + (d1 - d0) * vh_slice / vh_n, b = d0 + (d1 - d0) * (vh_slice + 1) / vh_n;
  double worst = 0, prev[3]; int have = 0;
  for (long long d = a; d <= b; d++)
    for (int h = 0; h < per; h++) {
      double jd = d + 2440587.5 + (double)h / per, ra = -99, dec = -99, v[3], s[3];
      lpsun_radec(jd, &ra, &dec);
      n++;
      if (!(ra >= 0 && ra < 2 * M_PI + 1e-15 && dec >= -M_PI / 2 && dec <= M_PI / 2)) viol("range", "JD %.4f: RA %.9f Dec %.9f rad out of range", jd, ra, dec);
      v[0] = cos(dec) * cos(ra); v[1] = cos(dec) * sin(ra); v[2] = sin(dec);
      sun(jd, s);
      double e = ang(v, s);
      if (!(e <= 0.02)) viol("position", "JD %.4f: RA %.6f Dec %.6f deg is %.5f deg from the Sun", jd, ra / D, dec / D, e);
      if (e > worst) worst = e;
      if (have && !(ang(v, prev) < 1.05 / per && ang(v, prev) > 0.9 / per)) viol("continuity", "JD %.4f: moved %.6f deg since the previous step", jd, ang(v, prev));
      memcpy(prev, v, sizeof v); have = 1;
      q[(int)(fmod(ra, 2 * M_PI) / (M_PI / 2)) & 3]++;
      /* repeated call */
      double r2, c2; lpsun_radec(jd, &r2, &c2);
      if (r2 != ra || c2 != dec) viol("repeat", "JD %.4f: repeated call differs", jd);
    }
  vh_count("instants", n);
  for (int i = 0; i < 4; i++) if (!q[i]) viol("quadrant", "no instant with the Sun in quadrant %d", i);
  vh_sample("slice %d: %lld instants from day %lld, worst error %.5f deg", vh_slice, n, a, worst);
  return 0;
}
