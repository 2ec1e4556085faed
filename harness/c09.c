/* C09: TLE parsing: every value of every field (encode -> parse -> compare), every checksum pair, every single-digit
   corruption, every malformed line shape. */
#include "tleline.h"
#define PI_ 3.14159265358979323846
static long long np;
static lines t; static tle_t s; static int k0;
static int parse(void) { memset(&s, 0x5a, sizeof s); np++; vh_fix(t.l1); vh_fix(t.l2); return parse_elements(t.l1, t.l2, &s); }
static int near(double a, double b) { return fabs(a - b) <= 1e-12 * fabs(b) + 1e-300; }
#define EXPECT(field, got, want) do { int r_ = parse(); if (r_ || !near((got), (want))) { viol(field, "ret %d: %.17g, expected %.17g in\n  %s\n  %s", r_, (double)(got), (double)(want), t.l1, t.l2); return; } } while (0)
#define MINE(i) ((i) % vh_n == vh_slice)

static void angles(void)
{
  static const int col[4] = {8, 17, 34, 43}; char b[32];
  double *p[4] = {&s.xincl, &s.xnodeo, &s.omegao, &s.xmo};
  for (int f = 0; f < 4; f++) {
    base(&t, k0);
    int top = f ? 3600000 : 1800000;
    for (int v = 0; v <= top; v += 1) {
      if (!MINE(v / 1000)) continue;
      sprintf(b, v & 1 ? "%3d.%04d" : "%03d.%04d", v / 10000, v % 10000);
      put(t.l2, col[f], b);
      EXPECT("angle", *p[f], v * (PI_ / 1800000.));
    }
  }
}
static void ecc(void)
{
  char b[32]; base(&t, k0);
  for (int v = 0; v < 10000000; v++) {
    if (!MINE(v / 1000)) continue;
    sprintf(b, "%07d", v); put(t.l2, 26, b);
    EXPECT("eccentricity", s.eo, v * 1e-7);
  }
}
static void dexp_(int which)
{
  char b[32]; base(&t, k0);
  int col = which ? 53 : 44; double f = which ? 1. : 2 * PI_ / (1440. * 1440 * 1440);
  for (int v = 0; v < 100000; v++) {
    if (!MINE(v / 100)) continue;
    for (int sg = 0; sg < 3; sg++) for (int es = 0; es < 3; es++) for (int e = 0; e < 10; e++) {
      sprintf(b, "%c%05d%c%d", " +-"[sg], v, "-+ "[es], e); put(t.l1, col, b);
      double w = v * 1e-5 * (sg == 2 ? -1 : 1) * pow(10, es == 0 ? -e : e) * f;
      EXPECT(which ? "bstar" : "nddot", which ? s.bstar : s.xndd6o, w);
    }
  }
  /* blank field */
  if (!MINE(0)) return;
  put(t.l1, col, "        "); EXPECT("blank drag", which ? s.bstar : s.xndd6o, 0);
}
static void digits8(int which)          /* ndot and mean motion fraction: all single digits, all pairs, runs */
{
  char b[32]; long long n = 0;
  base(&t, k0);
  for (int i = 0; i < 8; i++) for (int j = i; j < 8; j++) for (int a = 0; a < 10; a++) for (int c = 0; c < 10; c++) for (int fill = 0; fill < 10; fill += 9) {
    if (!MINE(n++)) continue;
    char d[9]; memset(d, '0' + fill, 8); d[8] = 0; d[i] = '0' + a; d[j] = '0' + c;
    if (which == 0)
      for (int sg = 0; sg < 4; sg++) {
        sprintf(b, "%c.%s", " +-0"[sg], d); put(t.l1, 33, b);
        EXPECT("ndot", s.xndt2o, atof(d) * 1e-8 * (sg == 2 ? -1 : 1) * 2 * PI_ / (1440. * 1440));
      }
    else
      for (int r = 0; r < 100; r++) {
        char d2[9]; strcpy(d2, d);
        sprintf(b, r % 2 ? "%2d.%s" : "%02d.%s", r, d2); put(t.l2, 52, b);
        EXPECT("mean motion", s.xno, (r + atof(d) * 1e-8) * 2 * PI_ / 1440.);
      }
  }
  for (int v = 0; v < 100000; v++) {    /* values as they occur */
    if (!MINE(v)) continue;
    if (which == 0) { sprintf(b, "-.%08d", v * 7); put(t.l1, 33, b); EXPECT("ndot", s.xndt2o, -v * 7e-8 * 2 * PI_ / (1440. * 1440)); }
    else { sprintf(b, "%2d.%08d", v % 18, v * 997 % 100000000); put(t.l2, 52, b); EXPECT("mean motion", s.xno, (v % 18 + (v * 997 % 100000000) * 1e-8) * 2 * PI_ / 1440.); }
  }
}
static void epoch(void)
{
  char b[32]; base(&t, k0);
  for (int y = 0; y < 100; y++) {
    if (!MINE(y)) continue;
    int yr = y < 57 ? 2000 + y : 1900 + y;
    double j0 = vh_days(yr, 1, 1) + 2440587.5;
    for (int d = 1; d <= 366; d++)
      for (int f = 0; f < 84; f++) {
        long fr = f < 80 ? 0 : f == 80 ? 99999999 : f == 81 ? 50000000 : f == 82 ? 12345678 : 87654321;
        if (f < 80) { long p10 = 1; for (int i = 0; i < f / 10; i++) p10 *= 10; fr = p10 * (f % 10); }
        sprintf(b, f & 1 ? "%02d%3d.%08ld" : "%02d%03d.%08ld", y, d, fr); put(t.l1, 18, b);
        int r = parse();
        if (r || fabs(s.epoch - (j0 + d - 1 + fr * 1e-8)) > 1e-9) { viol("epoch", "ret %d: %.10f, expected %.10f in %s", r, s.epoch, j0 + d - 1 + fr * 1e-8, t.l1); return; }
      }
  }
}
static void ints(void)
{
  char b[32];
  for (int pad = 0; pad < 2; pad++) {
    base(&t, k0);
    for (int v = 0; v < 10000; v++) if (MINE(v)) { sprintf(b, pad ? "%04d" : "%4d", v); put(t.l1, 64, b); EXPECT("bulletin", s.bulletin_number, v); }
    base(&t, k0);
    for (int v = 0; v < 100000; v++) if (MINE(v)) { sprintf(b, pad ? "%05d" : "%5d", v); put(t.l2, 63, b); EXPECT("revolution", s.revolution_number, v); }
    base(&t, k0);
    for (int v = 0; v < 100000; v++) if (MINE(v)) { sprintf(b, pad ? "%05d" : "%5d", v); put(t.l1, 2, b); put(t.l2, 2, b); EXPECT("number", s.norad_number, v); }
  }
}
static void chars(void)
{
  for (int c = ' '; c <= 'z'; c++) {
    if (!MINE(c)) continue;
    base(&t, k0); t.l1[7] = c;
    if (parse() || s.classification != c) { viol("classification", "'%c' read as '%c'", c, s.classification); return; }
    base(&t, k0); t.l1[62] = c;
    if (c != 'H' && (parse() || s.ephemeris_type != c)) { viol("ephemeris type", "'%c' read as '%c'", c, s.ephemeris_type); return; }
    for (int i = 0; i < 8; i++) {
      base(&t, k0); t.l1[9 + i] = c;
      char w[9]; memcpy(w, t.l1 + 9, 8); w[8] = 0;
      if (parse() || strcmp(s.intl_desig, w)) { viol("designator", "'%s' read as '%.9s'", w, s.intl_desig); return; }
    }
  }
}
/* fields do not disturb each other: all fields at their extremes together */
static void together(void)
{
  long long n = 0;
  for (int m = 0; m < 1 << 10; m++) {
    if (!MINE(n++)) continue;
    base(&t, k0);
    char w[16];
    put(t.l1, 18, m & 1 ? "99366.99999999" : "00001.00000000");
    put(t.l1, 33, m & 2 ? "-.99999999" : " .00000000");
    put(t.l1, 44, m & 4 ? "-99999-9" : " 00000+0");
    put(t.l1, 53, m & 8 ? "-99999+9" : " 00000-0");
    put(t.l1, 64, m & 16 ? "9999" : "   0");
    put(t.l2, 8, m & 32 ? "180.0000" : "  0.0000");
    put(t.l2, 17, m & 64 ? "360.0000" : "  0.0000");
    put(t.l2, 26, m & 128 ? "9999999" : "0000000");
    put(t.l2, 34, m & 256 ? "359.9999" : "  0.0001"); put(t.l2, 43, m & 256 ? "000.0000" : "359.9999");
    put(t.l2, 52, m & 512 ? "16.99999999" : " 0.00000001"); put(t.l2, 63, m & 512 ? "99999" : "    0");
    (void)w;
    double K = 2 * PI_ / 1440;
    int r = parse();
    if (r || fabs(s.epoch - (m & 1 ? vh_days(1999, 1, 1) + 2440587.5 + 365.99999999 : vh_days(2000, 1, 1) + 2440587.5)) > 1e-9 ||
        !near(s.xndt2o, m & 2 ? -0.99999999 * K / 1440 : 0) || !near(s.xndd6o, m & 4 ? -0.99999e-9 * K / 1440 / 1440 : 0) ||
        !near(s.bstar, m & 8 ? -0.99999e9 : 0) || s.bulletin_number != (m & 16 ? 9999 : 0) ||
        !near(s.xincl, m & 32 ? PI_ : 0) || !near(s.xnodeo, m & 64 ? 2 * PI_ : 0) || !near(s.eo, m & 128 ? 0.9999999 : 0) ||
        !near(s.omegao, m & 256 ? 359.9999 * PI_ / 180 : 0.0001 * PI_ / 180) || !near(s.xmo, m & 256 ? 0 : 359.9999 * PI_ / 180) ||
        !near(s.xno, (m & 512 ? 16.99999999 : 0.00000001) * K) || s.revolution_number != (m & 512 ? 99999 : 0))
      { viol("fields together", "ret %d, fields wrong in\n  %s\n  %s", r, t.l1, t.l2); return; }
  }
}
static void state_vectors(void)
{
  static const char *D = "0123456789ABCDEFGHIJKLMNOPQRSTUVWXYZ";
  long long n = 0;
  for (int f = 0; f < 6; f++) for (int i = 0; i < 8; i++) for (int d = 0; d < 36; d++) for (int fill = 0; fill < 3; fill++) for (int sg = 0; sg < 2; sg++) {
    if (!MINE(n++)) continue;
    double val[6];
    base(&t, k0); t.l1[62] = 'H';
    for (int g = 0; g < 6; g++) {
      char w[10]; long long v = 0;
      w[0] = (g == f ? sg : g & 1) ? '-' : '+'; w[9] = 0;
      for (int j = 0; j < 8; j++) {
        int q = fill == 0 ? 0 : fill == 1 ? 35 : (j * 5 + g * 7 + 3) % 36;
        if (g == f && j == i) q = d;
        w[1 + j] = D[q]; v = v * 36 + q;
      }
      put(g < 3 ? t.l1 : t.l2, 33 + g % 3 * 10, w);
      val[g] = (w[0] == '-' ? -1. : 1.) * (double)v * (g < 3 ? 1 : 1e-4);
    }
    if (k0 == 0) t.l1[42] = t.l1[52] = t.l2[42] = t.l2[52] = ' ';
    int r = parse(); double *sv = &s.xincl;
    for (int g = 0; g < 6; g++) if (r || !near(sv[g], val[g])) { viol("state vector", "ret %d component %d: %.10g, expected %.10g in\n  %s\n  %s", r, g, sv[g], val[g], t.l1, t.l2); return; }
    if (s.ephemeris_type != 'H') { viol("state vector", "type"); return; }
    /* checksum of either line wrong is reported the same way */
    for (int q = 1; q < 4; q++) {
      lines u = t;
      if (q & 1) u.l1[68] = '0' + (u.l1[68] - '0' + 1 + d % 9) % 10;
      if (q & 2) u.l2[68] = '0' + (u.l2[68] - '0' + 1 + i) % 10;
      np++;
      if ((r = parse_elements(u.l1, u.l2, &s)) != q) { viol("state vector checksum", "returned %d, expected %d for\n  %s\n  %s", r, q, u.l1, u.l2); return; }
    }
  }
  /* an illegal base-36 digit or sign */
  static const char *bad = " .abc*:@[-+";
  for (int f = 0; f < 6; f++) for (int i = 0; i < 9; i++) for (const char *p = bad; *p; p++) {
    if (!MINE(n++)) continue;
    base(&t, k0); t.l1[62] = 'H';
    for (int g = 0; g < 6; g++) put(g < 3 ? t.l1 : t.l2, 33 + g % 3 * 10, "+0000000A");
    if (i == 0 && (*p == '+' || *p == '-')) continue;
    (f < 3 ? t.l1 : t.l2)[33 + f % 3 * 10 + i] = *p;
    int r = parse();
    if (r >= 0) { viol("state vector digit", "'%c' accepted (%d) in\n  %s\n  %s", *p, r, t.l1, t.l2); return; }
  }
}
static int ret(lines *u) { tle_t q; np++; return parse_elements(u->l1, u->l2, &q); }
static void checksums(void)
{
  static const char *eol[] = {"", "\n", "\r\n", " \n", " "};
  long long n = 0;
  for (int e = 0; e < 5; e++) for (int a = 0; a < 10; a++) for (int b = 0; b < 10; b++) {
    if (!MINE(n++)) continue;
    lines u; base(&u, k0);
    int c1 = u.l1[68] - '0', c2 = u.l2[68] - '0';
    u.l1[68] = '0' + a; u.l2[68] = '0' + b; strcat(u.l1, eol[e]); strcat(u.l2, eol[(e + a) % 5]);
    int r = ret(&u), w = (a != c1) | (b != c2) << 1;
    if (r != w) { viol("checksum", "returned %d, expected %d for checksums %d %d (right: %d %d)", r, w, a, b, c1, c2); return; }
  }
  /* every single digit of either line replaced by every other digit */
  for (int ln = 0; ln < 2; ln++) for (int i = 0; i < 69; i++) for (int d = '0'; d <= '9'; d++) {
    if (!MINE(n++)) continue;
    lines u; base(&u, k0);
    char *l = ln ? u.l2 : u.l1;
    if (l[i] < '0' || l[i] > '9' || l[i] == d) continue;
    l[i] = d;
    int r = ret(&u);
    if (r == 0 || (i && r != (ln ? 2 : 1)) || (!i && r > 0)) { viol("altered digit", "line %d column %d '%c': returned %d\n  %s\n  %s", ln + 1, i + 1, d, r, u.l1, u.l2); return; }
  }
  /* a sign lost or added */
  for (int ln = 0; ln < 2; ln++) for (int i = 2; i < 68; i++) {
    if (!MINE(n++)) continue;
    lines u; base(&u, k0); char *l = ln ? u.l2 : u.l1;
    if (l[i] == '-') l[i] = ' '; else if (l[i] == ' ' || l[i] == '+') l[i] = '-'; else continue;
    int r = ret(&u);
    if (r != (ln ? 2 : 1)) { viol("altered sign", "line %d column %d: returned %d", ln + 1, i + 1, r); return; }
  }
}
static void malformed(void)
{
  long long n = 0;
  for (int ln = 0; ln < 2; ln++) {
    for (int i = 0; i < 2; i++) for (int c = 1; c < 256; c++) {
      if (!MINE(n++)) continue;
      lines u; base(&u, k0); char *l = ln ? u.l2 : u.l1;
      if (l[i] == (char)c) continue;
      l[i] = c; if (c > ' ' && c < 'z' && (i || c != "21"[ln])) l[68] = '0' + vh_sum(l);
      int r = ret(&u);
      if (r >= 0) { viol("not a TLE line", "column %d = %d in line %d: returned %d", i + 1, c, ln + 1, r); return; }
    }
    for (int i = 2; i < 69; i++) for (int c = 1; c < 256; c++) {
      if (!MINE(n++)) continue;
      if (c >= ' ' && c <= 'z' && i < 68) continue;
      if (i == 68 && c >= '0' && c <= '9') continue;
      lines u; base(&u, k0); (ln ? u.l2 : u.l1)[i] = c;
      int r = ret(&u);
      if (r >= 0) { viol("illegal character", "column %d = %d in line %d: returned %d", i + 1, c, ln + 1, r); return; }
    }
    static const char *end[] = {"", "\n", "\r\n", "\r"};
    for (int i = 0; i < 69; i++) for (int e = 0; e < 4; e++) {
      if (!MINE(n++)) continue;
      lines u; base(&u, k0); strcpy((ln ? u.l2 : u.l1) + i, end[e]);
      int r = ret(&u);
      if (r >= 0) { viol("short line", "line %d cut at %d: returned %d", ln + 1, i, r); return; }
    }
    for (int c = 33; c < 256; c++) {
      if (!MINE(n++)) continue;
      if (c > 127) continue;
      lines u; base(&u, k0); char *l = ln ? u.l2 : u.l1; l[69] = c; l[70] = 0;
      int r = ret(&u);
      if (r >= 0) { viol("long line", "line %d with extra '%c': returned %d", ln + 1, c, r); return; }
    }
  }
  if (MINE(0)) {
    lines u; base(&u, k0); tle_t q;
    int r = parse_elements(u.l2, u.l1, &q), r2 = parse_elements(u.l1, u.l1, &q), r3 = parse_elements(u.l2, u.l2, &q);
    if (r >= 0 || r2 >= 0 || r3 >= 0) viol("swapped lines", "returned %d %d %d", r, r2, r3);
  }
}
int main(int argc, char **argv)
{
  vh_args(argc, argv);
  for (k0 = 0; k0 < 2; k0++) {
    if (k0 == 0 || vh_thorough) { angles(); ecc(); dexp_(0); dexp_(1); }
    epoch(); digits8(0); digits8(1); ints(); chars(); together(); state_vectors(); checksums(); malformed();
  }
  if (!vh_slice) { base(&t, 0); vh_sample("%s", t.l1); vh_sample("%s", t.l2); base(&t, 1); vh_sample("%s", t.l1); }
  vh_count("parses", np);
  return 0;
}
