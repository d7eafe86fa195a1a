/* Matrix and vector views over three buffers; the whole memory is reported after every operation. */
#include "amino.h"
#include "amino/mat.h"
#include "drv.h"
#define NB 3
#define N 48
#define NV 8
static double *MEM[NB]; static struct aa_dvec V[NV]; static struct aa_dmat M[NV]; static int VB[NV], MB[NV];
static jmp_buf ERRJ; static int ERR;
static void onerr(const char *m) { (void)m; ERR = 1; longjmp(ERRJ, 1); }
#ifdef DRV_SHARED   /* the handler is one for the whole process: host.c installs one that asks the thread */
extern __thread void (*host_err)(const char *);
static void set_err(void (*f)(const char *)) { host_err = f; }
#else
static void set_err(void (*f)(const char *)) { aa_la_set_err(f); }
#endif
static void trace_begin(void) { for (int b = 0; b < NB; b++) { MEM[b] = malloc(N*sizeof(double)); for (int i = 0; i < N; i++) MEM[b][i] = 0; } set_err(onerr); }
static void trace_end(void) { for (int b = 0; b < NB; b++) free(MEM[b]); }
static void logmem(void) { jl(",\"mem\":["); for (int b = 0; b < NB; b++) { jl("%s[", b ? "," : ""); for (int i = 0; i < N; i++) jl("%s%ld", i ? "," : "", q_int(MEM[b][i], 1, 0)); jl("]"); } jl("]"); }
static void fin(void) { jl(",\"err\":%d", ERR); if (ERR) aa_mem_region_local_release(); }
static int vi(int t) { long k = ti(t); if (k < 0 || k >= NV) bad_script("view", TOK[0]); return (int)k; }
static CBLAS_TRANSPOSE tr(int t) { long k = ti(t); return k == 0 ? CblasNoTrans : k == 1 ? CblasTrans : CblasConjTrans; }
static void logdm(const char *key, const struct aa_dmat *X, double sc) { jl(",\"%s\":[", key); for (size_t j = 0; j < X->cols; j++) { jl("%s[", j ? "," : ""); for (size_t i = 0; i < X->rows; i++) jl("%s%ld", i ? "," : "", q_rnd(X->data[j*X->ld+i], sc)); jl("]"); } jl("]"); }
static void trace_cmd(void) {
    const char *op = TOK[0]; double r = 0; int info = 0; ERR = 0;
    jl("{\"op\":\"%s\",\"a\":[", op); for (int i = 1; i < NTOK; i++) jl("%s%ld", i > 1 ? "," : "", ti(i)); jl("]");
    if (!strcmp(op, "fill")) { /* fill buffer seed lim */
        unsigned long x = (unsigned long)ti(2)*2654435761u + 12345; long lim = ti(3);
        for (int i = 0; i < N; i++) { x = x*6364136223846793005ul + 1442695040888963407ul; MEM[ti(1)][i] = (double)((long)((x >> 33) % (unsigned long)(2*lim+1)) - lim); }
        logmem(); jl("}"); jflush(); return; }
    if (!strcmp(op, "poke")) { /* poke matrix vals (column major): establishes an operand */ struct aa_dmat *A = &M[vi(1)]; size_t k = 2; for (size_t j = 0; j < A->cols; j++) for (size_t i = 0; i < A->rows; i++) A->data[j*A->ld+i] = (double)ti((int)k++); logmem(); jl("}"); jflush(); return; }
    if (!strcmp(op, "vec") || !strcmp(op, "slice") || !strcmp(op, "row") || !strcmp(op, "col") || !strcmp(op, "diag")) {
        int k = vi(1), b = 0; struct aa_dvec v = {0};
        if (!setjmp(ERRJ)) {
            if (!strcmp(op, "vec")) { b = (int)ti(2); aa_dvec_view(&v, (size_t)ti(4), MEM[b] + ti(3), (size_t)ti(5)); }
            else if (!strcmp(op, "slice")) { b = VB[vi(2)]; aa_dvec_slice(&V[vi(2)], (size_t)ti(3), (size_t)ti(4), (size_t)ti(5), &v); }
            else { b = MB[vi(2)]; if (!strcmp(op, "row")) aa_dmat_row_vec(&M[vi(2)], (size_t)ti(3), &v); else if (!strcmp(op, "col")) aa_dmat_col_vec(&M[vi(2)], (size_t)ti(3), &v); else aa_dmat_diag_vec(&M[vi(2)], &v); } }
        fin(); if (!ERR) { V[k] = v; VB[k] = b; jl(",\"v\":[%d,%ld,%zu,%zu]", b, (long)(v.data - MEM[b]), v.len, v.inc); }
        jl("}"); jflush(); return; }
    if (!strcmp(op, "mat") || !strcmp(op, "block")) { int k = vi(1), b = 0; struct aa_dmat m = {0};
        if (!setjmp(ERRJ)) {
            if (!strcmp(op, "mat")) { b = (int)ti(2); aa_dmat_view(&m, (size_t)ti(4), (size_t)ti(5), MEM[b] + ti(3), (size_t)ti(6)); }
            else { b = MB[vi(2)]; size_t r0 = (size_t)ti(3), c0 = (size_t)ti(4), r1 = (size_t)ti(5), c1 = (size_t)ti(6); if (ti(7)) aa_dmat_view_block(&m, &M[vi(2)], r0, c0, r1 - r0, c1 - c0); else aa_dmat_block(&M[vi(2)], r0, c0, r1, c1, &m); } }
        fin(); if (!ERR) { M[k] = m; MB[k] = b; jl(",\"v\":[%d,%ld,%zu,%zu,%zu]", b, (long)(m.data - MEM[b]), m.rows, m.cols, m.ld); }
        jl("}"); jflush(); return; }
    void *p0 = aa_mem_region_ptr(aa_mem_region_local_get()); const char *xkey = NULL;
    if (!setjmp(ERRJ)) {
        if (!strcmp(op, "vzero")) aa_dvec_zero(&V[vi(1)]); else if (!strcmp(op, "vset")) aa_dvec_set(&V[vi(1)], (double)ti(2));
        else if (!strcmp(op, "mset")) aa_dmat_set(&M[vi(1)], (double)ti(2), (double)ti(3)); else if (!strcmp(op, "mzero")) aa_dmat_zero(&M[vi(1)]);
        else if (!strcmp(op, "vswap")) aa_dvec_swap(&V[vi(1)], &V[vi(2)]); else if (!strcmp(op, "vscal")) aa_dvec_scal((double)ti(2), &V[vi(1)]);
        else if (!strcmp(op, "vinc")) aa_dvec_inc((double)ti(2), &V[vi(1)]); else if (!strcmp(op, "vcopy")) aa_dvec_copy(&V[vi(1)], &V[vi(2)]);
        else if (!strcmp(op, "vaxpy")) aa_dvec_axpy((double)ti(3), &V[vi(1)], &V[vi(2)]); else if (!strcmp(op, "vdot")) r = aa_dvec_dot(&V[vi(1)], &V[vi(2)]);
        else if (!strcmp(op, "vnrm2")) { r = aa_dvec_nrm2(&V[vi(1)]); r *= r; r = fabs(r - nearbyint(r)) < 1e-9 ? nearbyint(r) : r; }
        else if (!strcmp(op, "vssd")) r = aa_dvec_ssd(&V[vi(1)], &V[vi(2)]);
        else if (!strcmp(op, "gemv")) aa_dmat_gemv(tr(1), (double)ti(2), &M[vi(3)], &V[vi(4)], (double)ti(5), &V[vi(6)]);
        else if (!strcmp(op, "gemm")) aa_dmat_gemm(tr(1), tr(2), (double)ti(3), &M[vi(4)], &M[vi(5)], (double)ti(6), &M[vi(7)]);
        else if (!strcmp(op, "lacpy")) aa_dmat_lacpy(ti(1) == 0 ? "G" : ti(1) == 1 ? "U" : "L", &M[vi(2)], &M[vi(3)]); else if (!strcmp(op, "mcopy")) aa_dmat_copy(&M[vi(1)], &M[vi(2)]);
        else if (!strcmp(op, "mssd")) r = aa_dmat_ssd(&M[vi(1)], &M[vi(2)]); else if (!strcmp(op, "mnrm2")) { r = aa_dmat_nrm2(&M[vi(1)]); r *= r; r = fabs(r - nearbyint(r)) < 1e-9 ? nearbyint(r) : r; }
        else if (!strcmp(op, "mscal")) aa_dmat_scal(&M[vi(1)], (double)ti(2)); else if (!strcmp(op, "minc")) aa_dmat_inc(&M[vi(1)], (double)ti(2));
        else if (!strcmp(op, "maxpy")) aa_dmat_axpy((double)ti(3), &M[vi(1)], &M[vi(2)]); else if (!strcmp(op, "trans")) aa_dmat_trans(&M[vi(1)], &M[vi(2)]);
        else if (!strcmp(op, "dup")) { /* dup how mat vec : reports the copies */
            struct aa_dvec *d; struct aa_dmat *e; const struct aa_dmat *A = &M[vi(2)]; const struct aa_dvec *x = &V[vi(3)]; struct aa_mem_region reg; aa_mem_region_init(&reg, 64);
            if (ti(1)) { d = aa_dvec_mdup(x); e = aa_dmat_mdup(A); } else { d = aa_dvec_dup(&reg, x); e = aa_dmat_dup(&reg, A); }
            jl(",\"dv\":["); for (size_t i = 0; i < d->len; i++) jl("%s%ld", i ? "," : "", q_int(d->data[i*d->inc], 1, 0)); jl("]"); logdm("dm", e, 1); jl(",\"shape\":[%zu,%zu,%zu]", d->len, e->rows, e->cols);
            aa_dvec_set(d, 7777); aa_dmat_set(e, 7777, 7777); if (ti(1)) { free(d); free(e); } aa_mem_region_destroy(&reg); }
        else if (!strcmp(op, "inv")) { info = aa_dmat_inv(&M[vi(1)]); xkey = "inv"; }
        else if (!strcmp(op, "pinv")) { info = aa_dmat_pinv(&M[vi(1)], (double)ti(3), &M[vi(2)]); xkey = op; }
        else if (!strcmp(op, "dpinv")) { info = aa_dmat_dpinv(&M[vi(1)], (double)ti(3), &M[vi(2)]); xkey = op; }
        else if (!strcmp(op, "dzdpinv")) { info = aa_dmat_dzdpinv(&M[vi(1)], (double)ti(3)/(double)ti(4), &M[vi(2)]); xkey = op; }
        else bad_script("op", op);
    }
    fin(); int bal = ERR || aa_mem_region_ptr(aa_mem_region_local_get()) == p0;
    if (xkey && !ERR) { struct aa_dmat *X = &M[vi(strcmp(op, "inv") ? 2 : 1)]; logdm("X", X, 100000); for (size_t j = 0; j < X->cols; j++) for (size_t i = 0; i < X->rows; i++) X->data[j*X->ld+i] = 0; jl(",\"info\":%d", info); }
    jl(",\"bal\":%d,\"r\":%ld", bal, q_int(r, 1, 0)); logmem(); jl("}"); jflush();
}
DRV_MAIN
