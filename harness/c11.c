/* C11: every history of propagation requests up to a length, and long chains of steps, against the answer of a fresh process. */
#include "vh.h"
#include <unistd.h>
#include <sys/wait.h>
#include "orbits.h"
static const double T[] = {0, 7, -7, 29.9, -29.9, 30.1, 100, -100, 359, -361, 719.9, 720, -720.1, 1439, -1440, 2165, 5000, -5000, 10081, -20000, 43200, -100000, 250000};
#define NT ((int)(sizeof T / sizeof *T))
typedef struct { double x[6]; int rc; } ans;
static orbit O[NORB];
static int no, fails;
static double buf[N_SAT_PARAMS];                 /* the satellite's initialised element set */
static ans ask(int m, const tle_t *t, const double *p, double ts, int vel)
{
  ans a;
  memset(&a, 0, sizeof a);
  for (int i = 0; i < 6; i++) a.x[i] = -7e33;
  a.rc = m_pos(m, ts, t, p, a.x, vel ? a.x + 3 : NULL);
  return a;
}
static ans fresh(int m, const tle_t *t, double ts) { double p[N_SAT_PARAMS]; memset(p, 0x55, sizeof p); m_init(m, p, t); return ask(m, t, p, ts, 1); }
static ans via(int m, const tle_t *t, double t0, double ts) { double p[N_SAT_PARAMS]; memset(p, 0x55, sizeof p); m_init(m, p, t); ask(m, t, p, t0, 1); return ask(m, t, p, ts, 1); }
static double dist(const double *a, const double *b)
{
  double s = 0;
  for (int i = 0; i < 3; i++) if (!(isnan(a[i]) && isnan(b[i]))) s += (a[i] - b[i]) * (a[i] - b[i]);
  return sqrt(s);
}
/* allowance for lunar-solar terms up to 30 minutes old, from the answers of a fresh set asked once before: km, km/min */
typedef struct { double p, v; } tol;
static tol lunisolar(int m, const tle_t *t, double ts, const ans *f)
{
  static const double D[] = {29.99, -29.99, 20, -20, 10, -10};
  tol r = {0, 0};
  for (int i = 0; i < 6; i++) {
    ans a = via(m, t, ts + D[i], ts);
    double p = dist(a.x, f->x), v = dist(a.x + 3, f->x + 3);
    if (p > r.p) r.p = p;
    if (v > r.v) r.v = v;
  }
  /* the terms change by less than this in half an hour, whatever the implementation says */
  if (r.p > .6) r.p = .6;
  if (r.v > .3) r.v = .3;
  r.p *= 1.2; r.v *= 1.2;
  return r;
}
/* error of the second-order integration in steps of up to half a day, from the same with steps of 20 minutes: largest up to a time */
static const double G[] = {100, 360, 719, 721, 1000, 1439, 1441, 2000, 2880, 3600, 4320, 5760, 7200, 10080, 14400, 20000, 28800, 36000, 50000, 72000, 100000, 150000, 250000, 510000};
#define NG ((int)(sizeof G / sizeof *G))
static double IE[NG], IV[NG];
static void integ_errors(int m, const orbit *o)
{
  memset(IE, 0, sizeof IE); memset(IV, 0, sizeof IV);
  if (o->cls != 2 && o->cls != 3) return;
  double mp = 0, mv = 0;
  for (int i = 0; i < NG; i++) {
    for (int s = -1; s < 2; s += 2) {
      ans a = fresh(m, &o->t, s * G[i]);
      sxpx_set_dpsec_integration_step(20);
      ans b = fresh(m, &o->t, s * G[i]);
      sxpx_set_dpsec_integration_step(720);
      double p = dist(a.x, b.x), v = dist(a.x + 3, b.x + 3);
      if (p > mp) mp = p;
      if (v > mv) mv = v;
    }
    IE[i] = mp; IV[i] = mv;
  }
}
static double integ(double ts, const double *e) { int i = 0; while (i < NG - 1 && G[i] < 2 * ts + 1440) i++; return 4 * e[i]; }
/* run f in a child, get n answers */
static void remote(void (*f)(ans *, int, void *), ans *out, int n, void *arg)
{
  int p[2];
  fflush(stdout);
  if (pipe(p)) exit(9);
  pid_t c = fork();
  if (!c) {
    ans *r = calloc(n, sizeof *r);
    f(r, n, arg);
    char *q = (char *)r; size_t l = n * sizeof *r;
    while (l) { ssize_t w = write(p[1], q, l); if (w <= 0) _exit(1); q += w; l -= w; }
    _exit(0);
  }
  close(p[1]);
  char *q = (char *)out; size_t l = n * sizeof *out;
  while (l) { ssize_t w = read(p[0], q, l); if (w <= 0) break; q += w; l -= w; }
  close(p[0]);
  int st; waitpid(c, &st, 0);
  if (l) { viol("crash", "fresh evaluation ended by status %x", st); exit(0); }
}
typedef struct { int m; const tle_t *t; const double *ts; } job;
static void rfresh(ans *r, int n, void *a) { job *j = a; for (int i = 0; i < n; i++) r[i] = fresh(j->m, j->t, j->ts[i]); }
static double worstp, worstn, worsti, worstr;
/* tm: largest time asked so far */
static int differ(int cls, const ans *g, const ans *w, double tm, int vel, int recent, tol ls, char *txt)
{
  double p = dist(g->x, w->x), v = vel ? dist(g->x + 3, w->x + 3) : 0, tp = 1e-6 + integ(tm, IE) + (recent ? ls.p : 0), tv = 1e-7 + 2 * integ(tm, IV) + (recent ? ls.v : 0);
  if (p / tp > worstr) worstr = p / tp;
  if (v / tv > worstr) worstr = v / tv;
  if (g->rc != w->rc) { sprintf(txt, "return code %d, fresh %d", g->rc, w->rc); return 1; }
  if (recent) { if (p > worstn) worstn = p; } else if (cls == 2 || cls == 3) { if (p > worsti) worsti = p; } else if (p > worstp) worstp = p;
  if (!(p <= tp)) { sprintf(txt, "position %.3f km from the fresh answer (allowed %.3g)", p, tp); return 1; }
  if (!(v <= tv)) { sprintf(txt, "velocity %.6f km/min from the fresh answer (allowed %.3g)", v, tv); return 1; }
  return 0;
}
static void other(int m, const orbit *o, double *p, double ts) { double x[6]; m_init(m, p, &o->t); m_pos(m, ts, &o->t, p, x, x + 3); m_pos(m, -ts / 3, &o->t, p, x, NULL); }
static double obuf[6][N_SAT_PARAMS];
/* operations: 0..NT-1 ask with velocity; NT.. ask without, for every third time; then the others */
#define NB ((NT + 2) / 3)
#define NOP (NT + NB + 10)
static const char *opname(int op)
{
  static char s[4][60]; static int k; char *r = s[k++ & 3];
  static const char *const N[] = {"other SGP4 satellite", "other SDP4 satellite", "other half-day satellite", "other geosynchronous satellite (SDP8)", "other state-vector satellite",
    "parameters reused for SGP4 and initialised again", "parameters reused for half-day SDP4 and initialised again", "parameters reused for a state vector and initialised again", "initialised again", "twin of other epoch"};
  if (op < NT) sprintf(r, "t=%g", T[op]); else if (op < NT + NB) sprintf(r, "t=%g (no velocity)", T[3 * (op - NT)]); else sprintf(r, "%s", N[op - NT - NB]);
  return r;
}
/* perform one operation; *at = time asked or NAN */
static ans perform(int op, int m, const orbit *o, double *at, int *vel)
{
  ans a;
  *at = NAN;
  memset(&a, 0, sizeof a);
  if (op < NT) { *at = T[op]; *vel = 1; return ask(m, &o->t, buf, T[op], 1); }
  if (op < NT + NB) { *at = T[3 * (op - NT)]; *vel = 0; return ask(m, &o->t, buf, *at, 0); }
  switch (op - NT - NB) {
    case 0: other(MSGP4, O, obuf[0], 77); break;
    case 1: other(MSDP4, O + 6, obuf[1], 12345); break;
    case 2: other(MSDP4, O + 10, obuf[2], 5005); break;
    case 3: other(MSDP8, O + 15, obuf[3], -7201); break;
    case 4: other(MSDP4, O + 18, obuf[4], 3000); break;
    case 5: other(MSGP4, O + 1, buf, 500); m_init(m, buf, &o->t); break;
    case 6: other(MSDP4, O + 11, buf, 30000); m_init(m, buf, &o->t); break;
    case 7: other(MSDP4, O + 19, buf, 4000); m_init(m, buf, &o->t); break;
    case 8: m_init(m, buf, &o->t); break;
    case 9: { orbit t = *o; t.t.epoch += 27; t.t.xno *= t.cls == 4 ? 1 : 1.001; other(m, &t, obuf[5], -4000); break; }
  }
  return a;
}
static ans base[NT];
static tol ls[NT];
/* one history from a fresh start; returns 1 on a difference of its last request */
static int history(const int *ops, int n, int m, const orbit *o, char *txt, double deep)
{
  double asked[64], tm = 0; int na = 0, bad = 0;
  memset(buf, ops[n - 1] & 1 ? 0 : 0x33, sizeof buf);          /* fresh answers are from memory filled with 0x55 */
  m_init(m, buf, &o->t);
  for (int i = 0; i < n; i++) {
    double at; int vel;
    ans a = perform(ops[i], m, o, &at, &vel);
    if (isnan(at)) continue;
    int recent = 0, k = ops[i] < NT ? ops[i] : 3 * (ops[i] - NT);
    for (int j = 0; j < na; j++) recent |= fabs(asked[j] - at) < 30;
    recent &= deep > 0;
    if (fabs(at) > tm) tm = fabs(at);
    asked[na++] = at;
    if (i == n - 1 && differ(o->cls, &a, base + k, tm, vel, recent, ls[k], txt)) bad = 1;
  }
  return bad;
}
typedef struct { const int *ops; int n, m; const orbit *o; double deep; char *txt; } hjob;
static void rhist(ans *r, int n, void *a) { hjob *h = a; (void)n; r->rc = history(h->ops, h->n, h->m, h->o, h->txt, h->deep); }
static long long nhist, nchain;
static void check(const int *ops, int n, int m, const orbit *o, double deep)
{
  char txt[200], line[600] = "";
  nhist++;
  if (!history(ops, n, m, o, txt, deep) || fails > 60) return;
  fails++;
  /* does the history alone, in a process of its own, show it? */
  hjob h = {ops, n, m, o, deep, txt};
  ans r;
  remote(rhist, &r, 1, &h);
  for (int i = 0; i < n; i++) sprintf(line + strlen(line), "%s%s", i ? " | " : "", opname(ops[i]));
  viol("history", "%s, %s: %s: %s%s", MNAME[m], o->name, line, txt, r.rc ? "" : " (after the histories before it)");
}
static void chains(int m, const orbit *o, int partner, double deep)
{
  static const double ST[] = {.05, 1, 10, 29, 31, 60, 719, 721, -.05, -10, -31, -721}, S0[] = {0, -4320, 14400};
  enum { L = 400 };
  static double ts[L]; static ans w[L];
  for (unsigned s = 0; s < sizeof ST / sizeof *ST; s++) for (int z = 0; z < 3; z++) {
    int n = fabs(ST[s]) > 100 ? 150 : vh_thorough ? L : 250;
    for (int i = 0; i < n; i++) ts[i] = S0[z] + i * ST[s];
    job j = {m, &o->t, ts};
    remote(rfresh, w, n, &j);
    double pb[N_SAT_PARAMS];
    orbit tw = *o; tw.t.epoch += 11;
    memset(buf, 0x33, sizeof buf);
    m_init(m, buf, &o->t);
    m_init(m, pb, &tw.t);
    for (int i = 0; i < n; i++) {
      int vel = i % 3 != 1; char txt[200];
      ans a = ask(m, &o->t, buf, ts[i], vel);
      if (partner) ask(m, &tw.t, pb, ts[i] + 5, 1);
      nchain++;
      if (i % 7 && i != n - 1 && vel && !partner) continue;          /* compared: every seventh, and those without velocity */
      tol l = {0, 0};
      int recent = deep > 0 && i && fabs(ST[s]) < 30;
      if (recent) l = lunisolar(m, &o->t, ts[i], w + i);
      if (differ(o->cls, &a, w + i, fmax(fabs(ts[0]), fabs(ts[i])), vel, recent, l, txt) && fails < 60) {
        fails++;
        viol("chain", "%s, %s: step %d of a chain from t=%g by %g min%s: %s", MNAME[m], o->name, i, S0[z], ST[s], partner ? " with a second satellite" : "", txt);
        break;
      }
    }
  }
}
int main(int argc, char **argv)
{
  vh_args(argc, argv);
  no = orbits(O);
  int jobn = 0;
  for (int k = 0; k < no; k++) for (int m = 0; m < NMODEL; m++) for (int d = 0; d < 2; d++) {
    if (O[k].cls == 4 ? m != MSDP4 : (O[k].cls == 0) != (m < MSDP4)) continue;
    if (d && (m < MSDP4 || O[k].cls == 4)) continue;               /* second round: the switch which makes answers exact */
    double deep = m >= MSDP4 && O[k].cls != 4 && !d;
    orbit o = O[k];
    if (d) o.cls = 1;
    integ_errors(m, &o);
    /* work is split by the first operation */
    sxpx_set_implementation_param(SXPX_DUNDEE_COMPLIANCE, d);
    job j = {m, &o.t, T};
    remote(rfresh, base, NT, &j);
    for (int i = 0; i < NT; i++) if (deep) ls[i] = lunisolar(m, &o.t, T[i], base + i);
    for (int a = 0; a < NOP; a++) {
      if (jobn++ % vh_n != vh_slice) continue;
      int ops[4];
      ops[0] = a; check(ops, 1, m, &o, deep);
      for (int b = 0; b < NOP; b++) {
        ops[1] = b; check(ops, 2, m, &o, deep);
        for (int c = 0; c < NOP; c++) {
          ops[2] = c;
          if (c < NT + NB) check(ops, 3, m, &o, deep);
          if (vh_thorough && !d) for (int e = 0; e < NT; e++) { ops[3] = e; check(ops, 4, m, &o, deep); }
        }
      }
    }
    for (int p = 0; p < 2; p++) if (jobn++ % vh_n == vh_slice) chains(m, &o, p, deep);
  }
  vh_count("histories", nhist); vh_count("chain_steps", nchain);
  if (vh_slice == 3) {
    vh_sample("largest difference without recent request %.3g km (none resonant), %.3g km (resonant); with one %.3g km", worstp, worsti, worstn);
    vh_sample("half-day e .71 | SDP4 | t=720 | other half-day satellite | t=-20000"); vh_sample("geostationary | SDP8 | parameters reused for half-day SDP4 and initialised again | t=30.1 | t=0"); }
  return 0;
}
