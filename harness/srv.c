/* Fork server: runs the real main() of a SatSkyMap program (compiled with -Dmain=prog_main) once per request
   in a forked child, with scripted propagation results and a fault plan.
   Request  (stdin, little endian): u32 len, then payload:
     u32 argc { u32 n, bytes } ; u32 timeout_ms ; u32 nfault { u32 kind, u32 index, u32 mode }
     u32 nsat { i32 norad, u32 retcode, u32 nknots, nknots * { f64 jd, f64 x,y,z } }
   Response (stdout): u32 status(wait), u32 outlen, bytes, u32 errlen, bytes, u32 ncnt {u32 count}  (call counters) */
#define _GNU_SOURCE
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdint.h>
#include <unistd.h>
#include <errno.h>
#include <math.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <sys/resource.h>
#include "norad.h"

int prog_main(int argc, char **argv);

enum { K_FOPEN, K_FGETS, K_MALLOC, K_REALLOC, K_CALLOC, K_FREAD, K_GETC, K_PROP, K_N };

static uint8_t *req; static uint32_t reqlen, rp;
static int64_t u32(void) { uint32_t v; if (rp + 4 > reqlen) _exit(99); memcpy(&v, req + rp, 4); rp += 4; return v; }

typedef struct { int norad, ret, nk; double *k; } sat_stub;
static sat_stub *stubs; static int nstubs;
typedef struct { int kind, index, mode; } fault;
static fault faults[16]; static int nfaults;
static uint32_t *cnt;              /* shared counters */
static int armed;                  /* only inside prog_main */

static int hit(int kind)           /* returns 0 = no fault, else mode+1 */
{
  if (!armed) return 0;
  int c = (int)cnt[kind]++;
  for (int i = 0; i < nfaults; i++)
    if (faults[i].kind == kind && faults[i].index == c) return faults[i].mode + 1;
  return 0;
}

FILE *__real_fopen(const char *, const char *);
FILE *__wrap_fopen(const char *p, const char *m) { if (hit(K_FOPEN)) { errno = EACCES; return NULL; } return __real_fopen(p, m); }
char *__real_fgets(char *, int, FILE *);
/* mode 0: end of file (the file ends here); mode 1: read error */
char *__wrap_fgets(char *b, int n, FILE *f)
{
  int m = hit(K_FGETS);
  if (m) {
    if (m == 1) f->_flags |= 0x10;                       /* _IO_EOF_SEEN */
    else { f->_flags |= 0x20; errno = EIO; }             /* _IO_ERR_SEEN */
    return NULL;
  }
  return __real_fgets(b, n, f);
}
void *__real_malloc(size_t);
void *__wrap_malloc(size_t n) { if (hit(K_MALLOC)) { errno = ENOMEM; return NULL; } return __real_malloc(n); }
void *__real_realloc(void *, size_t);
void *__wrap_realloc(void *p, size_t n) { if (hit(K_REALLOC)) { errno = ENOMEM; return NULL; } return __real_realloc(p, n); }
void *__real_calloc(size_t, size_t);
void *__wrap_calloc(size_t a, size_t n) { if (hit(K_CALLOC)) { errno = ENOMEM; return NULL; } return __real_calloc(a, n); }

static int stub_pos(double tsince, const tle_t *tle, double *pos, double *vel, int *ret)
{
  cnt[K_PROP]++;
  for (int i = 0; i < nstubs; i++)
    if (stubs[i].norad == tle->norad_number || stubs[i].norad == -999) {   /* -999: any other satellite */
      sat_stub *s = &stubs[i];
      double jd = tle->epoch + tsince / 1440.;
      int n = s->nk, j = 0;
      double *k = s->k;
      double f = 0;
      if (n > 1) {
        if (jd >= k[4 * (n - 1)]) { j = n - 2; f = 1; }
        else if (jd > k[0]) {
          int lo = 0, hi = n - 1;
          while (hi - lo > 1) { int m = (lo + hi) / 2; if (k[4 * m] <= jd) lo = m; else hi = m; }
          j = lo; f = (jd - k[4 * j]) / (k[4 * j + 4] - k[4 * j]);
        }
      }
      if (pos) for (int c = 0; c < 3; c++) {
        double a = k[4 * j + 1 + c];
        if (n > 1) a += f * (k[4 * j + 5 + c] - a);
        pos[c] = a;
      }
      if (vel) vel[0] = vel[1] = vel[2] = 0;
      *ret = s->ret;
      return 1;
    }
  return 0;
}
/* The scripted position stands for that of the right model with the right parameters: 225 minutes divide near from deep. A program that
   uses the other one (or parameters of something else) gets a position far away from the scripted one. */
static int different(const double *a, const double *b)
{
  for (int i = 0; i < 3; i++) if (!(fabs(a[i] - b[i]) < 1.) && !(a[i] != a[i] && b[i] != b[i]) && a[i] != b[i]) return 1;
  return 0;
}
#define WRAP(M, DEEP) \
int  __real_##M(const double, const tle_t *, const double *, double *, double *); \
int  __wrap_##M(const double t, const tle_t *tle, const double *prm, double *pos, double *vel) \
{ int r; \
  if (!stub_pos(t, tle, pos, vel, &r)) return __real_##M(t, tle, prm, pos, vel); \
  double per = 2 * 3.14159265358979 / tle->xno; \
  if (pos && !r && (tle->ephemeris_type == '0' || tle->ephemeris_type == ' ')) { \
    double q[N_SAT_PARAMS] = { 0 }, a[3] = { 0 }, b[3] = { 0 }; int bad = DEEP ? per < 224 : per > 226; \
    M##_init(q, tle); __real_##M(t, tle, q, a, NULL); __real_##M(t, tle, prm, b, NULL); \
    if (bad || different(a, b)) pos[0] += 3000., pos[1] -= 4000., pos[2] += 5000.; \
  } \
  return r; }
WRAP(SGP, 0) WRAP(SGP4, 0) WRAP(SGP8, 0) WRAP(SDP4, 1) WRAP(SDP8, 1)

static int rd(void *b, size_t n) { uint8_t *p = b; while (n) { ssize_t r = read(0, p, n); if (r <= 0) return 0; p += r; n -= r; } return 1; }
static void wr(const void *b, size_t n) { const uint8_t *p = b; while (n) { ssize_t r = write(3, p, n); if (r <= 0) _exit(98); p += r; n -= r; } }

int main(void)
{
  dup2(1, 3); signal(SIGPIPE, SIG_DFL);
  int mo = memfd_create("o", 0), me = memfd_create("e", 0);
  cnt = mmap(NULL, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  size_t cap = 0;
  for (;;) {
    if (!rd(&reqlen, 4)) return 0;
    if (reqlen > cap) { cap = reqlen * 2; free(req); req = __real_malloc(cap); }
    if (!rd(req, reqlen)) return 0;
    rp = 0;
    if (ftruncate(mo, 0) || ftruncate(me, 0)) _exit(97);
    lseek(mo, 0, SEEK_SET); lseek(me, 0, SEEK_SET);
    memset(cnt, 0, K_N * 4);
    pid_t pid = fork();
    if (pid == 0) {
      int argc = u32();
      char **argv = __real_malloc((argc + 1) * sizeof(char *));
      for (int i = 0; i < argc; i++) { int n = u32(); argv[i] = __real_malloc(n + 1); memcpy(argv[i], req + rp, n); argv[i][n] = 0; rp += n; }
      argv[argc] = NULL;
      int tmo = u32();
      nfaults = u32();
      for (int i = 0; i < nfaults; i++) { faults[i].kind = u32(); faults[i].index = u32(); faults[i].mode = u32(); }
      nstubs = u32();
      stubs = __real_malloc(sizeof(*stubs) * (nstubs + 1));
      for (int i = 0; i < nstubs; i++) {
        stubs[i].norad = (int)u32(); stubs[i].ret = (int)u32(); stubs[i].nk = u32();
        stubs[i].k = __real_malloc(stubs[i].nk * 32); memcpy(stubs[i].k, req + rp, stubs[i].nk * 32); rp += stubs[i].nk * 32;
      }
      dup2(mo, 1); dup2(me, 2); close(3);
      int nul = 0; close(nul);
      struct rlimit rl = { 64 << 20, 64 << 20 }; setrlimit(RLIMIT_FSIZE, &rl);
      rl.rlim_cur = rl.rlim_max = 0; setrlimit(RLIMIT_CORE, &rl);
      struct itimerval it = { {0, 0}, { tmo / 1000, (tmo % 1000) * 1000 } };
      setitimer(ITIMER_REAL, &it, NULL);
      armed = 1;
      int rc = prog_main(argc, argv);
      armed = 0;
      exit(rc);
    }
    int st = 0; waitpid(pid, &st, 0);
    uint32_t v = st; wr(&v, 4);
    int fds[2] = { mo, me };
    for (int i = 0; i < 2; i++) {
      off_t n = lseek(fds[i], 0, SEEK_END); 
      v = n; wr(&v, 4);
      if (n) { void *m = mmap(NULL, n, PROT_READ, MAP_PRIVATE, fds[i], 0); wr(m, n); munmap(m, n); }
    }
    v = K_N; wr(&v, 4); wr(cnt, 4 * K_N);
  }
}
