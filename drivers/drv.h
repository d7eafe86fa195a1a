/* Shared driver scaffolding: reads "T <id>" / command lines / "E", writes JSON events. */
#ifndef DRV_H
#define DRV_H
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdint.h>
#include <math.h>
#include <stdarg.h>
#include <setjmp.h>
static FILE *LOGF;
#define BAD_INEXACT 1999999999
#define BAD_NAN 1999999998
#define BAD_RANGE 1999999997
__attribute__((unused)) static void bad_script(const char *w, const char *l) { fprintf(stderr, "bad script (%s): %s\n", w, l); exit(3); }
/* the system is in a state in which the rest of the script is meaningless (e.g. a wrong count): no spec accepts this event */
static int DRV_SKIP; static jmp_buf DRV_JMP;
__attribute__((unused)) static void mismatch(const char *w);
/* round(x*scale) when within eps of an integer, else a sentinel no spec value equals */
__attribute__((unused)) static long q_int(double x, double scale, double eps) {
    if (isnan(x)) return BAD_NAN;
    double y = x * scale;
    if (!(fabs(y) < 1.5e9)) return BAD_RANGE;
    double r = nearbyint(y);
    if (fabs(y - r) > eps) return BAD_INEXACT;
    return (long)r;
}
/* plain rounding (for tolerance comparisons inside the spec) */
__attribute__((unused)) static long q_rnd(double x, double scale) {
    if (isnan(x)) return BAD_NAN;
    double y = x * scale;
    if (!(fabs(y) < 1.5e9)) return BAD_RANGE;
    return (long)nearbyint(y);
}
__attribute__((unused)) static void jl(const char *fmt, ...) { va_list ap; va_start(ap, fmt); vfprintf(LOGF, fmt, ap); va_end(ap); }
__attribute__((unused)) static void jflush(void) { fputc('\n', LOGF); fflush(LOGF); }
__attribute__((unused)) static void jarr(const char *key, const long *a, size_t n) {
    fprintf(LOGF, ",\"%s\":[", key);
    for (size_t i = 0; i < n; i++) fprintf(LOGF, "%s%ld", i ? "," : "", a[i]);
    fputc(']', LOGF);
}
__attribute__((unused)) static void jdarr(const char *key, const double *a, size_t n, double scale, double eps) {
    fprintf(LOGF, ",\"%s\":[", key);
    for (size_t i = 0; i < n; i++) fprintf(LOGF, "%s%ld", i ? "," : "", eps < 0 ? q_rnd(a[i], scale) : q_int(a[i], scale, eps));
    fputc(']', LOGF);
}
__attribute__((unused)) static void mismatch(const char *w) { jl("{\"op\":\"crash\",\"how\":\"state\",\"msg\":\"%s\"}", w); jflush(); DRV_SKIP = 1; longjmp(DRV_JMP, 1); }
/* tokenizer */
#define MAXTOK 4096
static char *TOK[MAXTOK]; static int NTOK;
__attribute__((unused)) static long ti(int i) { if (i >= NTOK) bad_script("missing token", NTOK ? TOK[0] : ""); return strtol(TOK[i], 0, 10); }
__attribute__((unused)) static double td(int i) { if (i >= NTOK) bad_script("missing token", NTOK ? TOK[0] : ""); return strtod(TOK[i], 0); }
__attribute__((unused)) static const char *ts(int i) { if (i >= NTOK) bad_script("missing token", NTOK ? TOK[0] : ""); return TOK[i]; }
static void trace_begin(void);   /* provided by the driver */
static void trace_cmd(void);     /* uses TOK/NTOK */
static void trace_end(void);
/* ---- memory: the command "mem" ends the trace's objects and reports how much less memory is free than before the trace began.
   What a library allocates once per process is no leak: a trace that seems to lose memory is run again, silently, and only what is lost every time counts. */
#ifdef __cplusplus
extern "C" {
#endif
size_t __sanitizer_get_current_allocated_bytes(void) __attribute__((weak));
void aa_mem_region_local_destroy(void) __attribute__((weak));
struct aa_mem_region; struct aa_mem_region *aa_mem_region_local_get(void) __attribute__((weak)); void *aa_mem_region_ptr(struct aa_mem_region *) __attribute__((weak));
#ifdef __cplusplus
}
#endif
static size_t DRV_BASE; static char *DRV_LINE, *DRV_START;
__attribute__((unused)) static size_t drv_bytes(void) { if (aa_mem_region_local_destroy) aa_mem_region_local_destroy(); return __sanitizer_get_current_allocated_bytes ? __sanitizer_get_current_allocated_bytes() : 0; }
/* where the thread-local scratch region stands: every call gives back the scratch memory it took */
static void *DRV_TOP; static void *drv_top(void) { return aa_mem_region_local_get ? aa_mem_region_ptr(aa_mem_region_local_get()) : NULL; }
__attribute__((unused)) static char *drv_split(char *p) {   /* tokenises a copy of the line at p, returns the next line */
    size_t n = strcspn(p, "\n"); memcpy(DRV_LINE, p, n); DRV_LINE[n] = 0; NTOK = 0; char *save = NULL;
    for (char *t = strtok_r(DRV_LINE, " ", &save); t && NTOK < MAXTOK; t = strtok_r(NULL, " ", &save)) TOK[NTOK++] = t;
    return p[n] ? p + n + 1 : p + n;
}
#include <unistd.h>
#include <fcntl.h>
static int DRV_FDS; static int drv_fds(void) { int n = 0; for (int i = 0; i < 256; i++) n += fcntl(i, F_GETFD) >= 0; return n; }
static int drv_again(char *stop, long *left) {   /* the trace once more, without a record */
    FILE *keep = LOGF; LOGF = fopen("/dev/null", "w"); if (!LOGF) { LOGF = keep; return 0; }
    fputc('\n', LOGF); fflush(LOGF);
    size_t b = drv_bytes(); trace_begin(); DRV_SKIP = 0;
    for (char *p = DRV_START; p < stop;) { p = drv_split(p); if (NTOK && !DRV_SKIP && !setjmp(DRV_JMP)) trace_cmd(); }
    trace_end(); *left = (long)(drv_bytes() - b); fclose(LOGF); LOGF = keep; return 1;
}
static void drv_mem(char *here) {
    trace_end(); int top = drv_top() == DRV_TOP, fds = drv_fds() - DRV_FDS; long left = (long)(drv_bytes() - DRV_BASE), l;
    for (int i = 0; i < 3 && left; i++) if (drv_again(here, &l)) left = l;
    jl("{\"op\":\"mem\",\"left\":%ld,\"top\":%d,\"fds\":%d}", left, top, fds); jflush();
    trace_begin();
}
static int drv_main(int argc, char **argv) {
    if (argc < 3) return 3;
    FILE *f = fopen(argv[1], "r"); LOGF = fopen(argv[2], "w");
    if (!f || !LOGF) return 3;
    fseek(f, 0, SEEK_END); size_t n = (size_t)ftell(f); rewind(f);
    char *text = (char*)malloc(n + 1); DRV_LINE = (char*)malloc(n + 1);
    if (fread(text, 1, n, f) != n) return 3;
    text[n] = 0; fclose(f);
    int in = 0;
    for (char *p = text; *p;) {
        char *here = p; p = drv_split(p);
        if (!NTOK) continue;
        if (!strcmp(TOK[0], "T") && NTOK == 2) { if (in) trace_end(); fprintf(LOGF, "T %s\n", TOK[1]); fflush(LOGF); DRV_SKIP = 0; DRV_START = p; DRV_BASE = drv_bytes(); DRV_TOP = drv_top(); DRV_FDS = drv_fds(); trace_begin(); in = 1; }
        else if (!strcmp(TOK[0], "E") && NTOK == 1) break;
        else if (!DRV_SKIP) { if (!strcmp(TOK[0], "mem")) drv_mem(here); else if (!setjmp(DRV_JMP)) trace_cmd(); }
    }
    if (in) trace_end();
    fprintf(LOGF, "E\n"); fclose(LOGF);
#ifdef DRV_SHARED
    return 0;
#endif
    if (getenv("DRV_EXIT")) exit(0);   /* debugging: let leak checkers run */
    _Exit(0);
}
#ifdef DRV_SHARED   /* a plug-in of host.c: every copy has its own static state and runs in a thread of its own */
#ifdef __cplusplus
extern "C"
#endif
int drv_shared(int argc, char **argv);
#define DRV_MAIN int drv_shared(int argc, char **argv) { return drv_main(argc, argv); }
#else
#define DRV_MAIN int main(int argc, char **argv) { return drv_main(argc, argv); }
#endif
#endif
