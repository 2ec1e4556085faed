/* Column writers for TLE lines (independent of the parser). */
#ifndef TLELINE_H
#define TLELINE_H
#include "vh.h"
#include "norad.h"
typedef struct { char l1[160], l2[160]; } lines;
static const char *B1[2] = {
  "1 25544U 98067A   20013.51234567  .00001234  12345-6  67891-4 0  9990",
  "1 00005X 00012ABC 19366.00000001 -.98765432 -99999+9 +10000-1 5    10" };
static const char *B2[2] = {
  "2 25544  51.6432 359.9999 0001234 123.4567   0.0001 15.49523456208750",
  "2 00005 179.9999   0.0000 9999999 000.1000 359.0001  1.00270001    10" };
static int vh_sum(const char *l) { int s = 0; for (int i = 0; i < 68; i++) s += l[i] >= '0' && l[i] <= '9' ? l[i] - '0' : l[i] == '-'; return s % 10; }
static void vh_fix(char *l) { l[68] = '0' + vh_sum(l); l[69] = 0; }
static void base(lines *t, int k) { strcpy(t->l1, B1[k]); strcpy(t->l2, B2[k]); vh_fix(t->l1); vh_fix(t->l2); }
static void put(char *l, int col, const char *s) { memcpy(l + col, s, strlen(s)); }
#endif
