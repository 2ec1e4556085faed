/* C08: calendar date <-> MJD over every day of 1859-9999 at boundary seconds, every second of selected days, all field values. */
#include "vh.h"
int date2mjd_nf(const char *date, double *mjd);
char *mjd2date(double mjd);
char *mjd2datef(double mjd);
#define OFF 40587                      /* MJD of 1970-01-01 */
static long long nconv;

static void iso(char *b, long long day, int sod)
{
  long long y; int m, d;
  vh_civil(day, &y, &m, &d);
  sprintf(b, "%04lld-%02d-%02dT%02d:%02d:%02d", y, m, d, sod / 3600, sod / 60 % 60, sod % 60);
}
static int parse_iso(const char *s, long long *day, double *sod)
{
  long long y; int m, d, h, mi, n = 0; double se;
  if (sscanf(s, "%lld-%2d-%2dT%2d:%2d:%lf%n", &y, &m, &d, &h, &mi, &se, &n) != 6 || s[n]) return 0;
  long long k = vh_days(y, m, d), y2; int m2, d2;
  vh_civil(k, &y2, &m2, &d2);
  if (y != y2 || m != m2 || d != d2 || h > 23 || mi > 59 || se >= 60 || h < 0 || mi < 0 || se < 0) return 0;
  *day = k; *sod = h * 3600. + mi * 60. + se;
  return 1;
}
static void fwd(long long day, int sod)
{
  char b[40]; double mjd = -1;
  iso(b, day, sod);
  nconv++;
  int r = date2mjd_nf(b, &mjd);
  double want = (double)(day + OFF) + sod / 86400.;
  if (r || !(fabs(mjd - want) <= 0.5 / 86400 + 1e-9)) { viol("date2mjd", "%s -> %d %.9f, expected %.9f", b, r, mjd, want); return; }
  char *s = mjd2date(mjd);
  if (!s || strcmp(s, b)) viol("roundtrip", "%s -> %.9f -> %s", b, mjd, s ? s : "(null)");
  s = mjd2date(want);
  if (!s || strcmp(s, b)) viol("mjd2date", "%.12f -> %s, expected %s", want, s ? s : "(null)", b);
}
static void back(double mjd)            /* any MJD: within half a second, all fields in range */
{
  char *s = mjd2date(mjd); long long day; double sod;
  nconv++;
  double res = fabs(mjd) * 86400 * 4.5e-16 + 2400000 * 86400. * 1e-19 + 2e-6;
  if (!s || !parse_iso(s, &day, &sod)) { viol("mjd2date-field", "%.12f -> %s", mjd, s ? s : "(null)"); return; }
  double diff = ((double)(day + OFF) - mjd) * 86400 + sod;
  if (!(fabs(diff) <= 0.5 + res + 1e-3)) viol("mjd2date-value", "%.12f -> %s (off by %.6f s)", mjd, s, diff);
}
static void backf(double mjd)
{
  char *s = mjd2datef(mjd); long long day; double sod;
  nconv++;
  if (!s || !parse_iso(s, &day, &sod)) { viol("mjd2datef-field", "%.12f -> %s", mjd, s ? s : "(null)"); return; }
  double diff = ((double)(day + OFF) - mjd) * 86400 + sod, res = fabs(mjd) * 86400 * 4.5e-16 + 5e-5;
  if (!(fabs(diff) <= 1e-3 + res)) viol("mjd2datef-value", "%.12f -> %s (off by %.6f s)", mjd, s, diff);
}
static void must_fail(const char *s)
{
  double m = 123; nconv++;
  if (date2mjd_nf(s, &m) == 0) viol("malformed", "'%s' accepted as %.6f", s, m);
}
int main(int argc, char **argv)
{
  static const int S[] = {0, 1, 29, 30, 31, 59, 60, 61, 3599, 3600, 3601, 43199, 43200, 43201, 46000, 82799, 82800, 86339, 86340, 86341, 86398, 86399};
  vh_args(argc, argv);
  long long a = vh_days(1859, 1, 1), b = vh_days(9999, 12, 31), days = 0, full = 0;
  for (long long d = a; d <= b; d++) {
    if ((d - a) % vh_n != vh_slice) continue;
    days++;
    for (unsigned i = 0; i < sizeof S / sizeof *S; i++) fwd(d, S[i]);
    for (int k = 0; k < 8; k += vh_thorough ? 1 : 3) { back((double)(d + OFF) + k * 0.125 - 0.3 / 86400); backf((double)(d + OFF) + k * 0.125 - 0.3 / 86400); backf((double)(d + OFF) + k * 0.125 + 0.01237); }
    fwd(d, (int)((d * 7919 % 86400 + 86400) % 86400));
  }
  /* every second (and half second) of selected days */
  for (long long y = 1859; y <= 9999; y++) {
    bool sel = y % 100 == 0 || y % 400 == 1 || (y >= 1995 && y <= 2035 && (vh_thorough || y % 5 == 0)) || y == 1859 || y == 9999 || (vh_thorough && y % 20 == 0);
    if (!sel || y % vh_n != vh_slice) continue;
    static const int md[][2] = {{1, 1}, {2, 28}, {3, 1}, {12, 31}, {7, 31}, {8, 30}};
    for (unsigned j = 0; j < (vh_thorough ? 6u : 2u); j++) {
      long long d = vh_days(y, md[j][0], md[j][1]) + (j == 1 && y % 4 == 0);
      full++;
      for (int s = 0; s < 86400; s++) {
        fwd(d, s);
        double m = (double)(d + OFF) + s / 86400.;
        back(m + 0.49 / 86400); back(m - 0.49 / 86400); backf(m); backf(m + 0.5 / 86400); backf(m + 0.9994 / 86400);
      }
    }
  }
  if (vh_slice == 0) {
    /* field ranges */
    static const int Y[] = {1859, 1900, 1999, 2000, 2019, 2020, 2100, 2400, 9999};
    for (unsigned i = 0; i < sizeof Y / sizeof *Y; i++)
      for (int m = 0; m < 100; m++)
        for (int d = 0; d < 100; d++) {
          char s[40]; long long y2; int m2, d2; double mjd;
          sprintf(s, "%04d-%02d-%02dT12:34:56", Y[i], m, d);
          vh_civil(m >= 1 && m <= 12 ? vh_days(Y[i], m, d) : 0, &y2, &m2, &d2);
          int ok = m >= 1 && m <= 12 && d >= 1 && m2 == m && d2 == d;
          if (!ok) must_fail(s);
          else if (date2mjd_nf(s, &mjd)) viol("rejected", "'%s' is a valid date", s);
          nconv++;
        }
    for (int h = 0; h < 100; h++)
      for (int k = 0; k < 100; k++) {
        char s[40]; double mjd;
        sprintf(s, "2020-02-29T%02d:%02d:30", h, k);
        if (h > 23 || k > 59) must_fail(s); else if (date2mjd_nf(s, &mjd)) viol("rejected", "'%s' is a valid date", s);
        sprintf(s, "2020-02-29T%02d:30:%02d", h, k);
        if (h > 23 || k > 60) must_fail(s); else if (k < 60 && date2mjd_nf(s, &mjd)) viol("rejected", "'%s' is a valid date", s);
      }
    /* every truncation before the seconds, every separator replaced by every other character */
    const char *g = "2024-05-11T20:50:55";
    for (int n = 0; n < 18; n++) { char s[40]; strcpy(s, g); s[n] = 0; must_fail(s); }
    static const int sep[] = {4, 7, 10, 13, 16};
    for (int j = 0; j < 5; j++)
      for (int ch = 1; ch < 256; ch++) {
        char s[40]; strcpy(s, g); if (ch == s[sep[j]] || (ch >= '0' && ch <= '9')) continue;
        s[sep[j]] = ch; must_fail(s);
      }
    static const int dig[] = {0, 5, 8, 11, 14, 17};
    for (int j = 0; j < 6; j++)
      for (int ch = 32; ch < 127; ch++) {
        char s[40]; strcpy(s, g); if ((ch >= '0' && ch <= '9') || ch == ' ' || ch == '+' || ch == '-') continue;
        s[dig[j]] = ch; must_fail(s);
      }
    /* out of range */
    static const double bad[] = {-2.5e6, -1e9, -1e300, 1e9, 1e300, INFINITY, -INFINITY, NAN};
    for (int j = 0; j < 8; j++) {
      if (mjd2date(bad[j])) viol("range", "mjd2date(%g) = %s", bad[j], mjd2date(bad[j]));
      if (mjd2datef(bad[j])) viol("range", "mjd2datef(%g) = %s", bad[j], mjd2datef(bad[j]));
    }
    /* years before 1859 and after 9999 (up to the limits) stay consistent */
    for (double m = -2400000.3; m < 3e6; m += vh_thorough ? 37.77 : 377.77) { char *s = mjd2date(m); long long d; double sod; nconv++;
      if (!s || (s[0] != '-' && s[0] != ' ' && m > -678576 && !parse_iso(s, &d, &sod))) viol("early", "%.9f -> %s", m, s ? s : "(null)"); }
    for (double m = 2973484; m < 9e8; m += 99991.37) back(m);
    double m;
    vh_sample("2024-05-11T20:50:55 -> %.6f", (date2mjd_nf(g, &m), m));
    vh_sample("9999-12-31T23:59:59 -> %.6f -> %s", (date2mjd_nf("9999-12-31T23:59:59", &m), m), mjd2date(m));
  }
  vh_count("conversions", nconv); vh_count("days", days); vh_count("full_days", full);
  return 0;
}
