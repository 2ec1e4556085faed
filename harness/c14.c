/* C14: FITS maps written by write_healpix_map, read back by read_healpix_map / get_fits_size; storage faults. */
#define _GNU_SOURCE
#include "vh.h"
#include <dlfcn.h>
#include <unistd.h>
#include <errno.h>
#include <signal.h>
#include <fcntl.h>
#include <sys/wait.h>
#include <sys/stat.h>
#include <sys/resource.h>
#include "chealpix.h"
#ifndef HEALPIX_NULLVAL
#define HEALPIX_NULLVAL (-1.6375e30)
#endif
/* ---- fault seam: the k-th call of one stdio primitive, counted over the calls the library makes, fails */
enum { F_OPEN, F_READ, F_WRITE, F_FLUSH, F_SEEK, F_CLOSE, F_SHORTW, F_MALLOC, NF };
static const char *FN[] = {"fopen", "fread", "fwrite", "fflush", "fseek", "fclose", "short fwrite", "malloc"};
static int f_kind = -1, f_at, f_on; static int f_cnt[NF];
static int hit(int k) { if (!f_on) return 0; return f_cnt[k]++ == f_at && f_kind == k; }
#define REAL(t, n, ...) static t (*r)(__VA_ARGS__); if (!r) r = dlsym(RTLD_NEXT, n)
FILE *fopen64(const char *p, const char *m) { REAL(FILE *, "fopen64", const char *, const char *); if (hit(F_OPEN)) { errno = EACCES; return NULL; } return r(p, m); }
FILE *fopen(const char *p, const char *m) { REAL(FILE *, "fopen", const char *, const char *); if (hit(F_OPEN)) { errno = EACCES; return NULL; } return r(p, m); }
size_t fread(void *b, size_t s, size_t n, FILE *f) { REAL(size_t, "fread", void *, size_t, size_t, FILE *); if (hit(F_READ)) { errno = EIO; return 0; } return r(b, s, n, f); }
size_t fwrite(const void *b, size_t s, size_t n, FILE *f)
{
  REAL(size_t, "fwrite", const void *, size_t, size_t, FILE *);
  if (f == stderr || f == stdout) return r(b, s, n, f);
  if (hit(F_WRITE)) { errno = ENOSPC; return 0; }
  if (hit(F_SHORTW)) { errno = ENOSPC; return r(b, s, n / 2, f); }
  return r(b, s, n, f);
}
int fflush(FILE *f) { REAL(int, "fflush", FILE *); if (f && f != stdout && f != stderr && hit(F_FLUSH)) { errno = ENOSPC; return EOF; } return r(f); }
int fseek(FILE *f, long o, int w) { REAL(int, "fseek", FILE *, long, int); if (hit(F_SEEK)) { errno = EIO; return -1; } return r(f, o, w); }
int fseeko64(FILE *f, off_t o, int w) { REAL(int, "fseeko64", FILE *, off_t, int); if (hit(F_SEEK)) { errno = EIO; return -1; } return r(f, o, w); }
int fclose(FILE *f) { REAL(int, "fclose", FILE *); if (f != stdout && f != stderr && hit(F_CLOSE)) { r(f); errno = EIO; return EOF; } return r(f); }
void *__libc_malloc(size_t);
void *__wrap_malloc(size_t n) { if (hit(F_MALLOC)) { errno = ENOMEM; return NULL; } return __libc_malloc(n); }   /* the project's own allocations */
/* ---- one case in a child */
typedef struct { long nside; int nest; const char *cs; int pat; } map_t;
static float val(const map_t *m, long i)
{
  union { uint32_t u; float f; } v;
  if (m->pat == 1) { static const float S[] = {0, -0.0f, 1, -1, 3.4028235e38f, -3.4028235e38f, 1.17549435e-38f, -1.17549435e-38f, (float)HEALPIX_NULLVAL, 1e-30f, 123456.7f, 0.1f}; return S[i % 12]; }
  if (m->pat == 2) { v.u = 0x00800000u + (uint32_t)(((uint64_t)i * 2654435761u) % 0x7f000000u); if (i & 1) v.u |= 0x80000000u; return v.f; }
  if (m->pat == 3) return (float)HEALPIX_NULLVAL;
  return (float)(i + 1);
}
static const char *norm(const char *cs) { switch (cs[0]) { case 'G': return "G"; case 'E': return "E"; default: return "C"; } }
static float *mk(const map_t *m) { long n = 12 * m->nside * m->nside; float *p = __libc_malloc(n * sizeof *p); for (long i = 0; i < n; i++) p[i] = val(m, i); return p; }
static char file[64], file2[64];
static int child(void (*fn)(const map_t *), const map_t *m, int kind, int at, long fsize)
{
  fflush(stdout);
  pid_t p = fork();
  if (!p) {
    int d = open("/dev/null", O_WRONLY); dup2(d, 2); dup2(d, 1); alarm(60);
    if (fsize >= 0) { struct rlimit l = {fsize, fsize}; signal(SIGXFSZ, SIG_IGN); setrlimit(RLIMIT_FSIZE, &l); }
    f_kind = kind; f_at = at; f_on = 1;
    fn(m);
    f_on = 0;
    _exit(0);
  }
  int s; waitpid(p, &s, 0);
  return WIFSIGNALED(s) ? -WTERMSIG(s) : WEXITSTATUS(s);
}
static char wname[80];                 /* name given to the writer, if not that of the file */
static void w(const map_t *m) { float *p = mk(m); write_healpix_map(p, m->nside, wname[0] ? wname : file, m->nest, m->cs); }
/* read and compare; exit 10.. on difference */
static int rd(const map_t *m)
{
  char cs[80] = "?", ord[80] = "?"; long ns = -5;
  float *p = read_healpix_map(file, &ns, cs, ord);
  f_on = 0;
  long n = 12 * m->nside * m->nside;
  if (ns != m->nside) return 11;
  if (strcmp(ord, m->nest ? "NESTED" : "RING")) return 12;
  if (strcmp(cs, norm(m->cs))) return 13;
  for (long i = 0; i < n; i++) { float v = val(m, i); if (memcmp(&v, &p[i], 4) && !(v == p[i] && v == 0)) return 14; }
  return 0;
}
static void r(const map_t *m) { int x = rd(m); if (x) _exit(x); }
static void sz(const map_t *m)
{
  char ord[80] = "?"; long ns = -5, n = get_fits_size(file, &ns, ord);
  if (ns != m->nside) _exit(11);
  if (n != 12 * m->nside * m->nside) _exit(15);
  if (strcmp(ord, m->nest ? "NESTED" : "RING")) _exit(12);
}
static const char *EX(int x)
{ static char b[40]; switch (x) { case 11: return "other nside"; case 12: return "other ordering"; case 13: return "other coordinate system"; case 14: return "other values"; case 15: return "other size"; } sprintf(b, x < 0 ? "killed by signal %d" : "exit %d", abs(x)); return b; }
static char *desc(const map_t *m) { static char b[80]; sprintf(b, "nside %ld %s coordsys '%s' pattern %d", m->nside, m->nest ? "nested" : "ring", m->cs, m->pat); return b; }
static long long nhist, cases, faults, reported, harmless, trunc_;
static void sane(const map_t *m)
{
  cases++;
  remove(file);
  int x = child(w, m, -1, 0, -1);
  if (x) { viol("write", "%s: write ends with %s", desc(m), EX(x)); return; }
  if ((x = child(r, m, -1, 0, -1))) viol("read", "%s: read back %s", desc(m), EX(x));
  if ((x = child(sz, m, -1, 0, -1))) viol("size", "%s: size query %s", desc(m), EX(x));
}
/* all histories of three maps in one process: write, read, size of each in turn, every one twice */
static const map_t H[] = {{1, 0, "G", 1}, {1, 1, "C", 2}, {2, 2, "E", 2}, {3, 0, "Q", 0}, {8, -1, "G", 2}, {16, 0, "E", 3}};
enum { NH = sizeof H / sizeof *H };
static int h_[3];
static void hist(const map_t *unused)
{
  char nm[3][64];
  (void)unused;
  for (int k = 0; k < 3; k++) { sprintf(nm[k], "h%d_%s", k, file2); remove(nm[k]); float *p = mk(&H[h_[k]]); write_healpix_map(p, H[h_[k]].nside, nm[k], H[h_[k]].nest, H[h_[k]].cs); }
  for (int t = 0; t < 2; t++) for (int k = 0; k < 3; k++) {
    int j = t ? 2 - k : k; strcpy(file, nm[j]);
    int x = rd(&H[h_[j]]); if (x) _exit(x);
    sz(&H[h_[j]]); r(&H[h_[j]]);
  }
  for (int k = 0; k < 3; k++) remove(nm[k]);
}
/* after a run that ended with `x`: a failure must be a reported one (exit status 1..9 and no signal), a success must leave / give the right map */
static void faulted(const char *what, const char *step, const map_t *m, int x, int check)
{
  faults++;
  if (x < 0) { viol("fault", "%s: %s, %s: %s", desc(m), step, what, EX(x)); return; }
  if (x >= 10 && x <= 20) { viol("fault", "%s: %s, %s: silently %s", desc(m), step, what, EX(x)); return; }
  if (x) { reported++; return; }
  harmless++;
  if (check) { int y = child(r, m, -1, 0, -1); if (y) viol("fault", "%s: %s, %s: reported as success but the file reads back as %s", desc(m), step, what, EX(y)); }
}
static void counted(void (*fn)(const map_t *), const map_t *m, int *cnt)
{
  int pp[2]; pipe(pp); fflush(stdout);
  pid_t p = fork();
  if (!p) { int d = open("/dev/null", O_WRONLY); dup2(d, 2); dup2(d, 1); f_on = 1; fn(m); f_on = 0; write(pp[1], f_cnt, sizeof f_cnt); _exit(0); }
  memset(cnt, 0, sizeof f_cnt); close(pp[1]); read(pp[0], cnt, sizeof f_cnt); close(pp[0]); waitpid(p, NULL, 0);
}
static void copy(const char *a, const char *b, long n)
{
  static char buf[4000000]; int f = open(a, O_RDONLY); long k = read(f, buf, sizeof buf); close(f);
  f = open(b, O_WRONLY | O_CREAT | O_TRUNC, 0644); write(f, buf, n < 0 || n > k ? k : n); close(f);
}
int main(int argc, char **argv)
{
  vh_args(argc, argv);
  long c = 0; char what[80];
  sprintf(file, "c14_%d.fits", vh_slice); sprintf(file2, "c14_%d.full", vh_slice);
  static const char *CS[] = {"G", "E", "C", "Q", "Galactic", "Ecliptic", "Celestial", "g", "X", " ", "GX", "C       "};
  map_t m;
  /* all small resolutions x ordering x coordinate system x values */
  int top = vh_thorough ? 128 : 33;
  static const int NE[] = {0, 1, 2, -1, 'N'};
  for (m.nside = 1; m.nside <= top; m.nside++) for (int ne = 0; ne < (m.nside <= 4 ? 5 : 2); ne++) for (unsigned s = 0; s < (m.nside <= 4 ? 12 : 4); s++) for (m.pat = 0; m.pat < 4; m.pat++) {
    m.nest = NE[ne];
    if (m.nside > 4 && m.pat != 2 && s != m.pat) continue;
    m.cs = CS[s];
    if (c++ % vh_n == vh_slice) sane(&m);
  }
  static const int BIG[] = {63, 64, 65, 100, 128, 200, 255, 256, 512, 1024, 2048};
  for (int i = 0; i < (vh_thorough ? 11 : 9); i++) for (m.nest = 0; m.nest < 2; m.nest++) { m.nside = BIG[i]; m.cs = CS[(i + m.nest) % 4]; m.pat = 2; if (c++ % vh_n == vh_slice) sane(&m); }
  m.nest = 0;
  for (int i = 0; i < NH * NH * NH; i++) {
    if (c++ % vh_n != vh_slice) continue;
    h_[0] = i / NH / NH; h_[1] = i / NH % NH; h_[2] = i % NH; cases += 3; nhist++;
    int x = child(hist, NULL, -1, 0, -1);
    if (x) viol("history", "maps %d, %d, %d written and read in one process: %s", h_[0], h_[1], h_[2], EX(x));
  }
  /* CFITSIO's names: overwriting, compressed */
  for (int i = 0; i < NH; i++) for (int j = 0; j < NH; j++) {
    if (c++ % vh_n != vh_slice) continue;
    remove(file); child(w, &H[i], -1, 0, -1); sprintf(wname, "!%s", file); cases++;
    int x = child(w, &H[j], -1, 0, -1), y = child(r, &H[j], -1, 0, -1), z = child(sz, &H[j], -1, 0, -1); wname[0] = 0;
    if (x || y || z) viol("overwrite", "map %d overwritten by map %d: write %s, read %s, size %s", i, j, EX(x), EX(y), EX(z));
    if (j) continue;
    char keep[64]; strcpy(keep, file); sprintf(file, "z%s.gz", keep); remove(file); cases++;
    x = child(w, &H[i], -1, 0, -1); y = child(r, &H[i], -1, 0, -1); z = child(sz, &H[i], -1, 0, -1);
    if (x || y || z) viol("compressed", "map %d to a compressed file: write %d, read %d, size %d", i, x, y, z);
    remove(file); strcpy(file, keep);
  }
  /* faults */
  map_t M[] = {{1, 1, "G", 2}, {2, 0, "E", 2}, {8, 1, "C", 2}, {16, 0, "G", 2}, {32, 1, "E", 0}};
  int nm = vh_thorough ? 5 : 4;
  for (int j = 0; j < nm; j++) {
    int cnt[NF]; map_t *q = &M[j];
    remove(file); counted(w, q, cnt);
    if (!vh_slice && j == 0) { char b[200] = ""; for (int k = 0; k < NF; k++) sprintf(b + strlen(b), "%s %d ", FN[k], cnt[k]); vh_sample("write makes: %s", b); if (!cnt[F_WRITE] || !cnt[F_OPEN]) vh_count("noseam", 1); }
    for (int k = 0; k < NF; k++) for (int a = 0; a < cnt[k]; a++) {
      if (c++ % vh_n != vh_slice) continue;
      remove(file); sprintf(what, "call %d of %s fails", a + 1, FN[k]);
      int x = child(w, q, k, a, -1);
      faulted(what, "writing", q, x, 1);
    }
    /* the storage is full after any number of bytes */
    remove(file); child(w, q, -1, 0, -1);
    struct stat st; stat(file, &st); long full = st.st_size;
    copy(file, file2, -1);
    for (long z = 0; z < full; z += (full > 20000 && !vh_thorough ? 97 : full > 40000 ? 7 : 1)) {
      if (c++ % vh_n != vh_slice) continue;
      remove(file); sprintf(what, "storage full after %ld of %ld bytes", z, full);
      faulted(what, "writing", q, child(w, q, -1, 0, z), 1);
    }
    /* reading: every primitive, every truncation */
    copy(file2, file, -1); counted(r, q, cnt);
    for (int which = 0; which < 2; which++) {
      counted(which ? sz : r, q, cnt);
      if (!vh_slice && !which && j == 0) { char b[200] = ""; for (int k = 0; k < NF; k++) sprintf(b + strlen(b), "%s %d ", FN[k], cnt[k]); vh_sample("read makes: %s", b); }
      for (int k = 0; k < NF; k++) for (int a = 0; a < cnt[k]; a++) {
        if (c++ % vh_n != vh_slice) continue;
        sprintf(what, "call %d of %s fails", a + 1, FN[k]);
        faulted(what, which ? "size query" : "reading", q, child(which ? sz : r, q, k, a, -1), 0);
      }
      for (long z = 0; z < full; z += (full > 20000 && !vh_thorough ? 97 : full > 40000 ? 7 : 1)) {
        if (c++ % vh_n != vh_slice) continue;
        copy(file2, file, z); trunc_++;
        sprintf(what, "file truncated to %ld of %ld bytes", z, full);
        faulted(what, which ? "size query" : "reading", q, child(which ? sz : r, q, -1, 0, -1), 0);
      }
      copy(file2, file, -1);
    }
    if (c++ % vh_n == vh_slice) {
      remove(file); int x = child(r, q, -1, 0, -1), y = child(sz, q, -1, 0, -1);
      faults += 2; if (x <= 0 || x >= 10) viol("missing", "reading a missing file: %s", EX(x)); if (y <= 0 || y >= 10) viol("missing", "size of a missing file: %s", EX(y));
      /* an unwritable place, an existing file */
      copy(file2, file, -1); map_t o = *q; o.pat = 0; o.nest = !o.nest;
      x = child(w, &o, -1, 0, -1); faults++;
      if (x < 0 || x >= 10) viol("existing", "writing over an existing file: %s", EX(x));
      y = child(r, x ? q : &o, -1, 0, -1); if (y) viol("existing", "writing over an existing file ends with %d and leaves %s", x, EX(y));
    }
  }
  remove(file); remove(file2);
  vh_count("maps", cases); vh_count("histories", nhist); vh_count("faults", faults); vh_count("faults_reported", reported); vh_count("faults_harmless", harmless); vh_count("truncations", trunc_);
  return 0;
}
