/* Stand-in for curl (and wget): no network. Answers from a plan file, one "<failure kind> <url>" line per failing URL, and
   logs every call ("<url>\t<absolute output path>"). A body is a set of CRLF element sets naming the URL it came from. */
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include <signal.h>
#include <limits.h>
#include <sys/stat.h>

static const char *RUN;

static int body(FILE *f, const char *url, int lines)
{
    static const char *n[] = {"ISS (ZARYA)", "HST", "CXO", "CHEOPS", "TESS", "OBJECT A", "OBJECT B"};
    int k = 0;
    if (getenv("STUB_BODIES")) {   /* <dir>/<url, other than letters, digits, - and . replaced> */
        static char b[2000];
        int c, n = snprintf(b, sizeof b, "%s/", getenv("STUB_BODIES"));
        for (const char *p = url; *p && n < 1990; p++) b[n++] = strchr("-.", *p) || (*p >= '0' && *p <= '9') || ((*p | 32) >= 'a' && (*p | 32) <= 'z') ? *p : '_';
        b[n] = 0;
        FILE *g = fopen(b, "r");
        if (!g) return 0;
        while (k < (lines < 1000 ? lines : 1000000) && (c = getc(g)) != EOF) { putc(c, f); k += c == '\n'; }
        fclose(g);
        return 0;
    }
    for (int i = 0; i < 7; i++) {
        if (k++ >= lines) return 0;
        fprintf(f, "%-24s\r\n", n[i]);
        if (k++ >= lines) { fprintf(f, "1 %05dU run", i + 1); return 0; }
        fprintf(f, "1 %05dU run %s of %s\r\n", i + 1, RUN, url);
        if (k++ >= lines) return 0;
        fprintf(f, "2 %05d run %s of %s\r\n", i + 1, RUN, url);
    }
    fprintf(f, "%-24s\r\n1 99999 end of %s run %s\r\n2 99999 end\r\n", "LAST", url, RUN);
    return 0;
}

int main(int argc, char **argv)
{
    const char *out = NULL, *url = NULL, *fmt = NULL, *dump = NULL, *kind = "ok";
    int limit = 0, fail = 0, head = 0, remote = 0, follow = 0, wget = strstr(argv[0], "wget") != NULL;
    static const char *takes = "AbcCdDeEFhHKmoPQrtTuUwxXyYz";
    RUN = getenv("STUB_RUN") ? getenv("STUB_RUN") : "?";
    for (int i = 1; i < argc; i++) {
        char *a = argv[i];
        if (!strncmp(a, "--", 2) && a[2]) {
            char *v = strchr(a, '=');
            if (wget && v) { *v++ = 0; } else v = NULL;
#define VAL (v ? v : (i + 1 < argc ? argv[++i] : ""))
            if (!strcmp(a, "--output") || !strcmp(a, "--output-document")) out = VAL;
            else if (!strcmp(a, "--write-out")) fmt = VAL;
            else if (!strcmp(a, "--fail") || !strcmp(a, "--fail-with-body")) fail = 1 + (a[6] != 0);
            else if (!strcmp(a, "--head")) head = 1;
            else if (!strcmp(a, "--location")) follow = 1;
            else if (!strcmp(a, "--remote-name")) remote = 1;
            else if (!strcmp(a, "--dump-header")) dump = VAL;
            else if (!strcmp(a, "--url")) url = VAL;
            else if (!strcmp(a, "--max-time") || !strcmp(a, "--speed-time")) limit |= atof(VAL) > 0;
            else if (!strcmp(a, "--connect-timeout") || !strcmp(a, "--retry") || !strcmp(a, "--retry-delay")
                || !strcmp(a, "--user-agent") || !strcmp(a, "--timeout") || !strcmp(a, "--tries")
                || !strcmp(a, "--speed-limit") || !strcmp(a, "--retry-max-time") || !strcmp(a, "--max-redirs") || !strcmp(a, "--header")) (void)VAL;
            continue;
        }
        if (a[0] == '-' && a[1]) {
            for (char *p = a + 1; *p; p++) {
                if (wget ? strchr("OToUt", *p) != NULL : strchr(takes, *p) != NULL) {
                    char *v = p[1] ? p + 1 : (i + 1 < argc ? argv[++i] : "");
                    if (*p == (wget ? 'O' : 'o')) out = v;
                    if (!wget && *p == 'w') fmt = v;
                    if (!wget && *p == 'D') dump = v;
                    if (!wget && (*p == 'm' || *p == 'y')) limit |= atof(v) > 0;
                    break;
                }
                if (*p == 'f') fail = 1;
                if (*p == 'I') head = 1;
                if (*p == 'L') follow = 1;
                if (*p == 'O') remote = 1;
            }
            continue;
        }
        url = a;
    }
    if (!url) return 2;
    const char *plan = getenv("STUB_PLAN"), *log = getenv("STUB_LOG");
    static char buf[1000], kd[64];
    FILE *f;
    if (plan && (f = fopen(plan, "r"))) {
        while (fgets(buf, sizeof buf, f)) {
            char *sp = strchr(buf, ' ');
            if (!sp) continue;
            *sp++ = 0;
            sp[strcspn(sp, "\n")] = 0;
            if (!strcmp(sp, url) || (!strcmp(sp, "*") && !strcmp(kind, "ok"))) { strncpy(kd, buf, 63); kind = kd; if (strcmp(sp, "*")) break; }
        }
        fclose(f);
    }
    if (remote && !out) { out = strrchr(url, '/'); out = out ? out + 1 : url; }
    if (wget && !out) { out = strrchr(url, '/'); out = out ? out + 1 : url; }
    if (log && (f = fopen(log, "a"))) {
        char cwd[PATH_MAX];
        if (!getcwd(cwd, sizeof cwd)) strcpy(cwd, "?");
        if (!out) fprintf(f, "%s\t-\n", url);
        else if (out[0] == '/') fprintf(f, "%s\t%s\n", url, out);
        else fprintf(f, "%s\t%s/%s\n", url, cwd, out);
        fclose(f);
    }
    int code = 200, rc = 0, lines = 1000, html = 0, none = 0, touch = 0, die = 0;
    if (!strcmp(kind, "ok")) ;
    else if (!strncmp(kind, "http", 4)) { code = atoi(kind + 4); html = 1; }
    else if (!strcmp(kind, "noconn")) { code = 0; rc = 7; none = 1; }
    else if (!strcmp(kind, "nodns")) { code = 0; rc = 6; none = 1; }
    else if (!strcmp(kind, "connto")) { code = 0; rc = 28; none = 1; }
    else if (!strcmp(kind, "bodyto")) { rc = 28; lines = 8; }      /* time-out half way */
    else if (!strcmp(kind, "headto")) { rc = 28; none = 1; }       /* status received, nothing of the body */
    else if (!strcmp(kind, "partial")) { rc = 18; lines = 11; }
    else if (!strcmp(kind, "reset")) { rc = 56; lines = 3; }
    else if (!strcmp(kind, "diskfull")) { rc = 23; lines = 5; }
    else if (!strcmp(kind, "redir")) { if (!follow && !wget) { code = 301; html = 1; } }      /* moved: fine for those who follow */
    else if (!strcmp(kind, "empty")) { none = 1; touch = 1; }
    else if (!strcmp(kind, "emptynf")) none = 1;
    else if (!strcmp(kind, "kill")) { lines = 8; die = 1; }
    else if (!strcmp(kind, "killend")) die = 1;
    else return 2;
    if (rc == 28 && code && !limit && !wget) {       /* the server stops sending: without a time limit this would wait for ever */
        char nm[64] = "";
        snprintf(buf, sizeof buf, "/proc/%d/comm", getppid());
        if ((f = fopen(buf, "r"))) { if (!fgets(nm, sizeof nm, f)) nm[0] = 0; fclose(f); }
        if (!strncmp(nm, "timeout", 7)) raise(SIGTERM);
        if (log && (f = fopen(log, "a"))) { fprintf(f, "%s\tHANG\n", url); fclose(f); }
    }
    if (fail && code >= 400) { rc = 22; if (fail == 1) none = 1; }
    if (wget && code >= 400) { rc = 8; none = 1; touch = 1; }
    if (dump && (f = strcmp(dump, "-") ? fopen(dump, "w") : stdout)) { fprintf(f, "HTTP/2 %d \r\n\r\n", code); if (f != stdout) fclose(f); }
    if (head) { if (code) printf("HTTP/2 %d \r\n\r\n", code); none = 1; out = NULL; }
    if (!none || touch || wget) {
        f = out && strcmp(out, "-") ? fopen(out, "w") : stdout;
        if (!f) rc = 23;
        else {
            if (html && !none) fprintf(f, "<html><body>error %d</body></html>\n", code);
            else if (!none) body(f, url, lines);
            if (f != stdout) fclose(f); else fflush(f);
        }
    }
    if (die) { if (getenv("STUB_KILL") && getpgrp() == atoi(getenv("STUB_KILL"))) kill(0, SIGKILL); return 2; }
    if (fmt && !wget) {
        for (const char *p = fmt; *p; p++) {
            const char *e;
            if (*p == '%' && p[1] == '{' && (e = strchr(p, '}'))) {
                int n = e - p - 2;
                if (!strncmp(p + 2, "http_code", n) || !strncmp(p + 2, "response_code", n)) printf("%03d", code);
                else if (!strncmp(p + 2, "size_download", n)) {
                    struct stat st;
                    printf("%ld", out && !none && !stat(out, &st) ? (long)st.st_size : 0L);
                } else if (!strncmp(p + 2, "exitcode", n)) printf("%d", rc);
                p = e;
            } else if (*p == '\\' && p[1] == 'n') { putchar('\n'); p++; }
            else putchar(*p);
        }
    }
    return rc;
}
