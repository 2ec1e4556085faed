/* C10: all 34^5 catalogue codes in documented order, all leading-blank spellings, all invalid characters. */
#include "tleline.h"
static const char *D = "0123456789ABCDEFGHJKLMNPQRSTUVWXYZ";
static long long np;
static lines t;
static int sum1;                       /* checksum of line 1 without the code */
static int decode(const char *c)
{
  tle_t s; int q = sum1;
  memcpy(t.l1 + 2, c, 5); memcpy(t.l2 + 2, c, 5);
  for (int i = 0; i < 5; i++) if (c[i] >= '0' && c[i] <= '9') q += c[i] - '0'; else if (c[i] == '-') q++;
  t.l1[68] = '0' + q % 10;
  np++;
  s.norad_number = -77;
  int r = parse_elements(t.l1, t.l2, &s);
  return r < 0 ? -1000 + r : s.norad_number;
}
static void one(const char *c, int want)
{
  int g = decode(c);
  if (g != want) viol("code", "'%.5s' decodes to %d, expected %d", c, g, want);
}
int main(int argc, char **argv)
{
  vh_args(argc, argv);
  for (int cls = 0; cls < 2; cls++) {  /* what follows the code must not matter: classification letter or digit or blank */
  base(&t, 0);
  t.l1[7] = cls ? '7' : 'U';
  memcpy(t.l1 + 2, "     ", 5); memcpy(t.l2 + 2, "00000", 5); vh_fix(t.l2);
  sum1 = vh_sum(t.l1);
  int n = 0;
  char c[6] = "00000";
  long long k = 0;
  /* in documented order, counting up: the number of the code is the number of codes before it */
  for (int v = 0; v < 100000; v++, n++) if (v % vh_n == vh_slice) { char b[8]; sprintf(b, "%05d", v); one(b, n); k++; }
  for (int l = 10; l < 34; l++) for (int v = 0; v < 10000; v++, n++) if (v % vh_n == vh_slice) { char b[8]; sprintf(b, "%c%04d", D[l], v); one(b, n); k++; }
  if (n != 340000) viol("order", "n");
  for (int p = 4; p >= 1; p--) {       /* position of the last letter: xxxxL, xxxLd, xxLdd, xLddd */
    int pre = 1, post = 1;
    for (int i = 0; i < p; i++) pre *= 34;
    for (int i = p + 1; i < 5; i++) post *= 10;
    for (int x = 0; x < pre; x++) {
      if ((x % vh_n) != vh_slice || (cls && !vh_thorough && x % 16 / 8)) { n += 24 * post; continue; }
      for (int i = p - 1, y = x; i >= 0; i--, y /= 34) c[i] = D[y % 34];
      for (int l = 10; l < 34; l++) {
        c[p] = D[l];
        for (int q = 0; q < post; q++, n++) { for (int i = 4, y = q; i > p; i--, y /= 10) c[i] = '0' + y % 10; one(c, n); k++; }
      }
    }
  }
  if (n != 45435424) viol("order", "enumeration of %d codes", n);
  vh_count(cls ? "codes_other_class" : "codes", k);
  }
  base(&t, 0); memcpy(t.l1 + 2, "     ", 5); sum1 = vh_sum(t.l1);
  /* leading blanks are zeros: every code with 1..4 leading zeros */
  long long nb = 0;
  for (int z = 1; z <= 5; z++) {
    int cnt = 1; for (int i = z; i < 5; i++) cnt *= 34;
    for (int x = 0; x < cnt; x++) {
      if (x % vh_n != vh_slice) continue;
      char a[6] = "00000", b[6] = "     ";
      for (int i = 4, y = x; i >= z; i--, y /= 34) a[i] = b[i] = D[y % 34];
      int g = decode(a), h = decode(b);
      nb++;
      if (g != h) viol("blanks", "'%s' decodes to %d but '%s' to %d", a, g, b, h);
    }
  }
  /* any other character gives 0 */
  static const char *bases[] = {"12345", "A1234", "AB12C", "ZZZZZ", "00001", "9Z9Z9"};
  for (int j = 0; j < 6; j++)
    for (int i = 0; i < 5; i++)
      for (int ch = '!'; ch <= 'z'; ch++) {
        char b[6]; strcpy(b, bases[j]);
        if (strchr(D, ch)) continue;
        b[i] = ch; nb++;
        one(b, 0);
        for (int i2 = 0; i2 < 5; i2++) { char e[6]; strcpy(e, b); if (i2 == i) continue; e[i2] = ch == 'z' ? 'a' : ch + 1; if (strchr(D, e[i2])) e[i2] = 'I'; one(e, 0); nb++; }
      }
  if (!vh_slice) { vh_sample("ZZZZZ -> %d", decode("ZZZZZ")); vh_sample("A0000 -> %d", decode("A0000")); vh_sample("ZZ999 -> %d", decode("ZZ999")); }
  vh_count("blank_and_invalid", nb); vh_count("decodes", np);
  return 0;
}
