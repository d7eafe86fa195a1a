/* Text input and output: lines, vectors, matrices, growing buffers. */
#include "amino.h"
#include "amino/io.h"
#include <unistd.h>
#include <errno.h>
#include "drv.h"
#define ML 400
static FILE *F; static char *LINE[ML]; static int NL; static char *RAW; static size_t RN; static struct aa_mem_region *R; static char *KEEP[ML]; static int NK; static void *R0;
static void fin(void) { if (F) fclose(F); F = NULL; for (int i = 0; i < NL; i++) free(LINE[i]); NL = 0; free(RAW); RAW = NULL; RN = 0; }
static void regfree(void) { if (R) aa_mem_region_destroy(R); R = NULL; NK = 0; }
static void trace_begin(void) { }
static void trace_end(void) { fin(); regfree(); }
static void digest(const char *s, size_t n) { uint32_t h = 2166136261u; for (size_t i = 0; i < n; i++) h = (h ^ (uint8_t)s[i]) * 16777619u; jl("\"%zu:%08x\"", n, h); }
static char *dec(const char *s) { char *r = malloc(strlen(s) + 1), *p = r; if (!strcmp(s, "%")) s++; for (; *s; s++) { if (*s == '%') { unsigned c; sscanf(s + 1, "%2x", &c); *p++ = (char)c; s += 2; } else *p++ = *s; } *p = 0; return r; }
static struct aa_mem_region *reg_(int w) { return w && R ? R : aa_mem_region_local_get(); }
static int bal(struct aa_mem_region *g, void *p) { int b = aa_mem_region_ptr(g) == p; aa_mem_region_pop(g, p); return b; }
static void nums(const char *k, const double *x, size_t n, size_t inc) { jl(",\"%s\":[", k); for (size_t i = 0; i < n; i++) jl("%s%ld", i ? "," : "", q_int(x[i*inc], 1e3, 1e-6)); jl("]"); }
#define FILL -77.125
static int clean(const double *x, size_t n, size_t used, size_t inc) { for (size_t i = 0; i < n; i++) if (!(i % inc == 0 && i + 1 < n) && x[i] != FILL) return 0; (void)used; return 1; }
static void texts(void) {   /* the file as written: lines of tab-separated numbers */
    size_t n; char *b; fflush(F); n = (size_t)ftell(F); b = malloc(n + 1); rewind(F); if (fread(b, 1, n, F) != n) bad_script("file", "write"); b[n] = 0; rewind(F);
    jl(",\"nl\":%d,\"text\":[", n && b[n-1] == '\n'); int first = 1;
    for (char *p = b; *p;) { char *e = strchr(p, '\n'); if (e) *e = 0; jl("%s[", first ? "" : ","); first = 0; int f2 = 1;
        for (char *q = p; *p || q != p;) { char *t = strchr(q, '\t'); if (t) *t = 0; char *z; double v = strtod(q, &z); jl("%s%ld", f2 ? "" : ",", *z || z == q ? BAD_NAN : q_int(v, 1e3, 1e-6)); f2 = 0; if (!t) break; q = t + 1; }
        jl("]"); if (!e) break; p = e + 1; }
    jl("]"); free(b);
}
static void trace_cmd(void) {
    const char *op = TOK[0];
    if (!strcmp(op, "region")) { regfree(); R = aa_mem_region_create((size_t)ti(1)); R0 = aa_mem_region_ptr(R); jl("{\"op\":\"region\"}"); jflush(); }
    else if (!strcmp(op, "file")) { fin(); jl("{\"op\":\"file\"}"); jflush(); }
    else if (!strcmp(op, "line")) { /* line text digest skip end tail values */
        if (NL >= ML) bad_script("lines", op);
        LINE[NL++] = dec(ts(1)); jl("{\"op\":\"line\",\"d\":\"%s\",\"skip\":%ld,\"end\":%ld,\"t\":\"%s\",\"x\":[", ts(2), ti(3), ti(4), ts(5)); for (int i = 6; i < NTOK; i++) jl("%s%ld", i > 6 ? "," : "", ti(i)); jl("]}"); jflush(); }
    else if (!strcmp(op, "open")) { /* open newline-at-end digest-of-everything */
        F = tmpfile(); for (int i = 0; i < NL; i++) fprintf(F, "%s%s", LINE[i], i + 1 < NL || ti(1) ? "\n" : ""); fflush(F); rewind(F); jl("{\"op\":\"open\",\"nl\":%ld,\"d\":\"%s\"}", ti(1), ts(2)); jflush(); }
    else if (!strcmp(op, "rewind")) { if (!F) mismatch("no file"); rewind(F); jl("{\"op\":\"rewind\"}"); jflush(); }
    else if (!strcmp(op, "getline")) { if (!R || NK >= ML || !F) mismatch("no region"); KEEP[NK++] = aa_io_getline(F, R); jl("{\"op\":\"getline\",\"kept\":["); for (int i = 0; i < NK; i++) { if (i) jl(","); digest(KEEP[i], strlen(KEEP[i])); } jl("]}"); jflush(); }
    else if (!strcmp(op, "popall")) { if (!R) mismatch("no region"); if (NK) aa_mem_region_pop(R, KEEP[0]); NK = 0; jl("{\"op\":\"popall\"}"); jflush(); }
    else if (!strcmp(op, "getvec")) { /* getvec region n inc */
        if (!F) mismatch("no file");
        size_t n = (size_t)ti(2), inc = (size_t)ti(3); double *x = malloc(8 * (n * inc + 1)); for (size_t i = 0; i < n * inc + 1; i++) x[i] = FILL;
        struct aa_mem_region *g = reg_((int)ti(1)); void *p = aa_mem_region_ptr(g); size_t r = aa_io_getvector(F, ti(1) == 2 ? NULL : g, n, x, inc); int b = bal(g, p) || (g == R); /* a chunk that grew may have moved */
        jl("{\"op\":\"getvec\",\"n\":%zu,\"r\":%zu,\"bal\":%d,\"clean\":%d", n, r, b, r <= n && clean(x, n*inc+1, r, inc)); nums("x", x, r <= n ? r : 0, inc); jl("}"); jflush(); free(x); }
    else if (!strcmp(op, "fix")) { /* fix m n ld */
        if (!F) mismatch("no file");
        size_t m = (size_t)ti(1), n = (size_t)ti(2), ld = (size_t)ti(3); double *A = malloc(8 * (ld * n + 1)); for (size_t i = 0; i < ld * n + 1; i++) A[i] = FILL;
        struct aa_mem_region *g = aa_mem_region_local_get(); void *p = aa_mem_region_ptr(g); size_t r = aa_io_fread_matrix_fix(F, m, n, A, ld); int b = bal(g, p);
        int ok = A[ld*n] == FILL; /* entries that were not given are unspecified */ for (size_t j = 0; j < n; j++) for (size_t i = m; i < ld; i++) ok &= A[j*ld+i] == FILL;
        jl("{\"op\":\"fix\",\"m\":%zu,\"n\":%zu,\"r\":%zu,\"bal\":%d,\"clean\":%d,\"a\":[", m, n, r, b, ok);
        for (size_t i = 0; i < m; i++) { jl("%s[", i ? "," : ""); for (size_t j = 0; j < n; j++) jl("%s%ld", j ? "," : "", q_int(A[j*ld+i], 1e3, 1e-6)); jl("]"); } jl("]}"); jflush(); free(A); }
    else if (!strcmp(op, "heap")) { /* heap n elts : elts < 0 is a null matrix without a count */
        if (!F) mismatch("no file");
        size_t n = (size_t)ti(1), el = ti(2) > 0 ? (size_t)ti(2) : 0; double *A = el ? malloc(8 * el) : NULL;
        struct aa_mem_region *g = aa_mem_region_local_get(); void *p = aa_mem_region_ptr(g); ssize_t r = aa_io_fread_matrix_heap(F, n, &A, ti(2) < 0 ? NULL : &el); int b = bal(g, p);
        int big = r < 0 || ti(2) < 0 || el >= (size_t)r * n; if (ti(2) >= 0) for (size_t i = 0; i < el; i++) { volatile double *q = A; q[i] = q[i]; }
        jl("{\"op\":\"heap\",\"n\":%zu,\"r\":%ld,\"bal\":%d,\"big\":%d", n, (long)r, b, big); nums("x", A, r > 0 && big ? (size_t)r * n : 0, 1); jl("}"); jflush(); free(A); }
    else if (!strcmp(op, "dparse")) { /* dparse k : the k-th line of the file, into the region */
        if (!R) mismatch("no region"); int k = (int)ti(1); if (k >= NL) mismatch("no line");
        void *p = aa_mem_region_ptr(R); double *X = NULL; char *e = NULL; size_t r = aa_io_d_parse(LINE[k], R, &X, ti(2) ? &e : NULL);
        double *c = malloc(8 * r + 8); if (r) memcpy(c, X, 8 * r);
        void *q = aa_mem_region_alloc(R, 64); memset(q, 1, 64); int same = r == 0 || !memcmp(c, X, 8 * r);   /* the values are allocated, not temporary */
        jl("{\"op\":\"dparse\",\"k\":%d,\"r\":%zu,\"held\":%d,\"end\":%ld", k, r, same, e ? (long)(e - LINE[k]) : -1); nums("x", c, r, 1); jl("}"); jflush(); free(c);
        aa_mem_region_pop(R, r ? (void*)X : p); }
    else if (!strcmp(op, "parse")) { /* parse k n inc end? */
        int k = (int)ti(1); if (k >= NL) mismatch("no line"); size_t n = (size_t)ti(2), inc = (size_t)ti(3); double *x = malloc(8 * (n * inc + 1)); for (size_t i = 0; i < n * inc + 1; i++) x[i] = FILL;
        char *e = NULL; size_t r = aa_io_parsevector(LINE[k], n, x, inc, ti(4) ? &e : NULL);
        jl("{\"op\":\"parse\",\"k\":%d,\"n\":%zu,\"r\":%zu,\"end\":%ld,\"clean\":%d", k, n, r, e ? (long)(e - LINE[k]) : -1, r <= n && clean(x, n*inc+1, r, inc)); nums("x", x, r <= n ? r : 0, inc); jl("}"); jflush(); free(x); }
    else if (!strcmp(op, "skip")) { int k = (int)ti(1); if (k >= NL) mismatch("no line"); jl("{\"op\":\"skip\",\"k\":%d,\"at\":%ld}", k, (long)(aa_io_skipblank(LINE[k]) - LINE[k])); jflush(); }
    else if (!strcmp(op, "slurp")) { /* slurp max0 chunk : the whole file through a pipe-like descriptor */
        if (!F) mismatch("no file"); fflush(F); int fd = dup(fileno(F)); lseek(fd, 0, SEEK_SET);
        size_t max = (size_t)ti(1), off = 0; void *b = malloc(max ? max : 1); int ok = 1;
        for (;;) { ssize_t r = aa_read_realloc(fd, &b, off, &max); if (r <= 0) { ok = r == 0; break; } off += (size_t)r; if (off > max) { ok = 0; break; } }
        lseek(fd, 0, SEEK_SET); close(fd); rewind(F); jl("{\"op\":\"slurp\",\"ok\":%d,\"room\":%d,\"d\":", ok, max >= off + 1); digest(b, off); jl("}"); jflush(); free(b); }
    else if (!strcmp(op, "write")) { /* write order m n ld values(thousandths, by column) : becomes the current file */
        fin(); F = tmpfile(); long m = ti(2), n = ti(3), ld = ti(4); double *A = malloc(8 * (size_t)(ld * n + 1)); for (long i = 0; i < ld * n + 1; i++) A[i] = FILL;
        for (long j = 0; j < n; j++) for (long i = 0; i < m; i++) A[j*ld+i] = td((int)(5 + j*m + i)) / 1e3;
        ssize_t r = aa_io_d_gemp(F, ti(1) ? CblasColMajor : CblasRowMajor, (size_t)m, (size_t)n, A, (size_t)ld);
        jl("{\"op\":\"write\",\"col\":%ld,\"m\":%ld,\"n\":%ld,\"r\":%ld,\"a\":[", ti(1), m, n, (long)r); for (long j = 0; j < n; j++) { jl("%s[", j ? "," : ""); for (long i = 0; i < m; i++) jl("%s%ld", i ? "," : "", ti((int)(5 + j*m + i))); jl("]"); } jl("]"); texts(); jl("}"); jflush(); free(A); }
    else if (!strcmp(op, "print")) { /* print inc values */
        fin(); F = tmpfile(); long inc = ti(1), n = NTOK - 2; double *x = malloc(8 * (size_t)(n * inc + 1)); for (long i = 0; i < n * inc + 1; i++) x[i] = FILL; for (long i = 0; i < n; i++) x[i*inc] = td((int)(2 + i)) / 1e3;
        ssize_t r = aa_io_d_print(F, (size_t)n, x, (size_t)inc); jl("{\"op\":\"print\",\"r\":%ld,\"a\":[", (long)r); for (long i = 0; i < n; i++) jl("%s%ld", i ? "," : "", ti((int)(2 + i))); jl("]"); texts(); jl("}"); jflush(); free(x); }
    else bad_script("unknown op", op);
}
DRV_MAIN
