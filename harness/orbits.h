/* Element sets of every orbit class, and the five models behind one interface. */
#ifndef ORBITS_H
#define ORBITS_H
#include "norad.h"
#define PI 3.14159265358979323846
#define D2R (PI / 180)
enum { MSGP, MSGP4, MSGP8, MSDP4, MSDP8, NMODEL };
static const char *const MNAME[] = {"SGP", "SGP4", "SGP8", "SDP4", "SDP8"};
static void m_init(int m, double *p, const tle_t *t)
{
  switch (m) { case MSGP: SGP_init(p, t); break; case MSGP4: SGP4_init(p, t); break; case MSGP8: SGP8_init(p, t); break; case MSDP4: SDP4_init(p, t); break; default: SDP8_init(p, t); }
}
static int m_pos(int m, double ts, const tle_t *t, const double *p, double *pos, double *vel)
{
  switch (m) { case MSGP: return SGP(ts, t, p, pos, vel); case MSGP4: return SGP4(ts, t, p, pos, vel); case MSGP8: return SGP8(ts, t, p, pos, vel); case MSDP4: return SDP4(ts, t, p, pos, vel); default: return SDP8(ts, t, p, pos, vel); }
}
/* degrees, revolutions per day, 1 / Earth radii */
static tle_t elem(double epoch, double incl, double node, double ecc, double argp, double ma, double n, double bstar)
{
  tle_t t;
  memset(&t, 0, sizeof t);
  t.epoch = epoch; t.xincl = incl * D2R; t.xnodeo = node * D2R; t.eo = ecc; t.omegao = argp * D2R; t.xmo = ma * D2R; t.xno = n * 2 * PI / 1440; t.bstar = bstar;
  t.ephemeris_type = '0'; t.classification = 'U';
  return t;
}
/* state vector of the high-orbit form: metres, metres per second, J2000 equatorial */
static tle_t state(double epoch, double x, double y, double z, double vx, double vy, double vz)
{
  tle_t t;
  double *v = &t.xincl;
  memset(&t, 0, sizeof t);
  t.epoch = epoch; t.ephemeris_type = 'H'; v[0] = x; v[1] = y; v[2] = z; v[3] = vx; v[4] = vy; v[5] = vz;
  return t;
}
typedef struct { const char *name; int cls; tle_t t; } orbit;       /* class 0 near, 1 deep, 2 half-day, 3 day, 4 state vector */
#define NORB 20
static int orbits(orbit *o)
{
  int k = 0;
  double e0 = 2458862.25;
#define ADD(n, c, ...) o[k].name = n; o[k].cls = c; o[k++].t = __VA_ARGS__
  ADD("low circular", 0, elem(e0, 51.6, 10, .0006, 20, 30, 15.5, 3e-5));
  ADD("low eccentric", 0, elem(e0 + .37, 28.5, 200, .18, 300, 100, 10.5, 1e-4));
  ADD("decaying, simplified", 0, elem(e0 - .2, 97.5, 300, .004, 100, 250, 16.25, 5e-4));
  ADD("polar 220 min", 0, elem(e0, 90, 90, .3, 270, 359, 6.6, 1e-5));
  ADD("retrograde", 0, elem(e0 + .5, 144, 150, .02, 200, 10, 13, -1e-5));
  ADD("deep 228 min", 1, elem(e0, 63, 20, .02, 45, 90, 6.3, 1e-5));
  ADD("deep eccentric transfer", 1, elem(e0 + .3, 7, 250, .73, 180, 5, 2.25, 1e-4));
  ADD("deep low inclination", 1, elem(e0 - .1, 5, 100, .1, 100, 200, 3.1, 0));
  ADD("navigation", 1, elem(e0, 56, 160, .001, 300, 120, 1.86, 0));
  ADD("half-day circular", 1, elem(e0 + .7, 55, 330, .01, 30, 250, 2.0056, 0));
  ADD("half-day e .71", 2, elem(e0, 63.4, 120, .71, 270, 10, 2.006, 2e-5));
  ADD("half-day e .6", 2, elem(e0 + .21, 62.8, 10, .6, 280, 200, 2.01, 0));
  ADD("half-day e .74 low", 2, elem(e0 + .9, 10, 300, .74, 90, 350, 1.99, 0));
  ADD("half-day retrograde", 2, elem(e0 + .4, 110, 250, .66, 120, 100, 2.1, 0));
  ADD("geostationary", 3, elem(e0, .02, 80, .0002, 150, 200, 1.00272, 0));
  ADD("geosynchronous", 3, elem(e0 + .6, 14.5, 40, .05, 300, 20, 1.0027, 0));
  ADD("day, inclined, eccentric", 3, elem(e0 + .15, 63.4, 200, .27, 270, 180, 1.003, 0));
  ADD("graveyard", 3, elem(e0, 11.6, 320, .003, 20, 330, .985, 0));
  ADD("state vector", 4, state(e0, 4e7, 1e7, -5e6, -800, 2700, 500));
  ADD("state vector, far", 4, state(e0 + .33, -2e8, 1.5e8, 6e7, -600, -500, 300));
#undef ADD
  return k;
}
#endif
