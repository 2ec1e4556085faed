/* Common part of the in-process harnesses: slices, violation lines, counters. */
#ifndef VH_H
#define VH_H
#include <stdio.h>
#include <stdlib.h>
#include <stdarg.h>
#include <string.h>
#include <stdint.h>
#include <math.h>
#include <stdbool.h>
static int vh_slice, vh_n = 1, vh_thorough, vh_nv;
static void vh_args(int argc, char **argv) { vh_slice = argc > 1 ? atoi(argv[1]) : 0; vh_n = argc > 2 ? atoi(argv[2]) : 1; vh_thorough = argc > 3 && atoi(argv[3]); }
/* key <TAB> text */
static void viol(const char *key, const char *fmt, ...)
{
  va_list ap;
  if (vh_nv++ > 200) return;
  printf("V %s\t", key); va_start(ap, fmt); vprintf(fmt, ap); va_end(ap); putchar('\n');
}
static void vh_count(const char *name, long long v) { printf("C %s %lld\n", name, v); }
static void vh_sample(const char *fmt, ...)
{
  va_list ap; printf("S "); va_start(ap, fmt); vprintf(fmt, ap); va_end(ap); putchar('\n');
}
/* days since 1970-01-01 of a proleptic Gregorian date, and back (Hinnant) */
static long long vh_days(long long y, int m, int d)
{
  y -= m <= 2;
  long long era = (y >= 0 ? y : y - 399) / 400, yoe = y - era * 400;
  long long doy = (153 * (m + (m > 2 ? -3 : 9)) + 2) / 5 + d - 1;
  return era * 146097 + yoe * 365 + yoe / 4 - yoe / 100 + doy - 719468;
}
static void vh_civil(long long z, long long *y, int *m, int *d)
{
  z += 719468;
  long long era = (z >= 0 ? z : z - 146096) / 146097, doe = z - era * 146097;
  long long yoe = (doe - doe / 1460 + doe / 36524 - doe / 146096) / 365;
  long long doy = doe - (365 * yoe + yoe / 4 - yoe / 100), mp = (5 * doy + 2) / 153;
  *d = (int)(doy - (153 * mp + 2) / 5 + 1); *m = (int)(mp < 10 ? mp + 3 : mp - 9); *y = yoe + era * 400 + (*m <= 2);
}
#endif
