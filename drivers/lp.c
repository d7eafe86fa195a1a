/* Executes histories on linear-program contexts and one-shot LP solves for every back end. */
#include "amino.h"
#include "amino/opt/opt.h"
#include "amino/opt/lp.h"
#include "drv.h"
#define INFI 9999
static struct aa_opt_cx *CX; static size_t N, M;
static void trace_begin(void) { CX = NULL; N = M = 0; }
static void trace_end(void) { if (CX) aa_opt_destroy(CX); CX = NULL; }
static double val(int i) { long x = ti(i); return x >= INFI ? INFINITY : x <= -INFI ? -INFINITY : (double)x; }
static int vals(int i, double *p, size_t n, const char *key) { jl(",\"%s\":[", key); for (size_t k = 0; k < n; k++) { p[k] = val(i + (int)k); jl("%s%ld", k ? "," : "", ti(i + (int)k)); } jl("]"); return i + (int)n; }
/* rows of A are tokens i.. (row major); stored column major with leading dimension ld */
static int mat(int i, double *A, size_t m, size_t n, size_t ld) { jl(",\"A\":["); for (size_t k = 0; k < ld*n; k++) A[k] = 7777;
    for (size_t r = 0; r < m; r++) { jl("%s[", r ? "," : ""); for (size_t c = 0; c < n; c++) { A[c*ld + r] = (double)ti(i + (int)(r*n + c)); jl("%s%ld", c ? "," : "", ti(i + (int)(r*n + c))); } jl("]"); } jl("]"); return i + (int)(m*n); }
static void sol(int r, const double *x, size_t n) { jl(",\"r\":%d", r); if (r == 0) jdarr("x", x, n, 1e4, -1); else jl(",\"x\":[]"); jl("}"); jflush(); }
static void trace_cmd(void) {
    const char *op = TOK[0];
    if (!strcmp(op, "create") || !strcmp(op, "once")) { /* create solver fmt n m pad A bl bu c xl xu */
        const char *s = ts(1), *f = ts(2); size_t n = (size_t)ti(3), m = (size_t)ti(4), ld = m + (size_t)ti(5); if (n > 8 || m > 8) bad_script("size", op);
        double A[8*16], bl[8], bu[8], c[8], xl[8], xu[8], x[8]; for (int k = 0; k < 8; k++) x[k] = -5;
        jl("{\"op\":\"%s\",\"solver\":\"%s\",\"fmt\":\"%s\",\"n\":%zu", op, s, f, n);
        int i = mat(6, A, m, n, ld); i = vals(i, bl, m, "bl"); i = vals(i, bu, m, "bu"); i = vals(i, c, n, "c"); i = vals(i, xl, n, "xl"); i = vals(i, xu, n, "xu");
        double V[64]; int C[64], R[9], k = 0; for (size_t r = 0; r < m; r++) { R[r] = k; for (size_t j = 0; j < n; j++) if (A[j*ld + r] != 0) { V[k] = A[j*ld + r]; C[k++] = (int)j; } } R[m] = k;
        int gm = !strcmp(f, "gm"), wh = !strcmp(s, "glpk") ? 0 : !strcmp(s, "clp") ? 1 : !strcmp(s, "lpsolve") ? 2 : !strcmp(s, "default") ? 3 : !strcmp(s, "g_glpk") ? 4 : !strcmp(s, "g_clp") ? 5 : 6;
        if (!strcmp(op, "once")) {
            aa_opt_lp_solver_fun *g[3] = {aa_opt_lp_glpk, aa_opt_lp_clp, aa_opt_lp_lpsolve}; aa_opt_lp_crs_solver *h[3] = {aa_opt_lp_crs_glpk, aa_opt_lp_crs_clp, aa_opt_lp_crs_lpsolve};
            int r = gm ? g[wh](m, n, A, ld, bl, bu, c, xl, xu, x) : h[wh](m, n, V, C, R, bl, bu, c, xl, xu, x); sol(r, x, n); return;
        }
        if (CX) bad_script("created", op);
        aa_opt_gmcreate_fun *g[3] = {aa_opt_glpk_gmcreate, aa_opt_clp_gmcreate, aa_opt_lpsolve_gmcreate};
        if (gm) CX = wh < 3 ? g[wh](m, n, A, ld, bl, bu, c, xl, xu) : aa_opt_gmcreate(wh == 3 ? AA_OPT_LP_SOLVER_DEFAULT : wh == 4 ? AA_OPT_LP_SOLVER_GLPK : wh == 5 ? AA_OPT_LP_SOLVER_CLP : AA_OPT_LP_SOLVER_LPSOLVE, m, n, A, ld, bl, bu, c, xl, xu);
        else CX = wh == 0 ? aa_opt_glpk_crscreate(m, n, V, C, R, bl, bu, c, xl, xu) : wh == 1 ? aa_opt_clp_crscreate(m, n, V, C, R, bl, bu, c, xl, xu) : aa_opt_lpsolve_crscreate(m, n, V, C, R, bl, bu, c, xl, xu);
        N = n; M = m; jl(",\"r\":%d}", CX ? 0 : 1); jflush(); if (!CX) mismatch("no context"); return;
    }
    if (!CX) bad_script("no context", op);
    double A[8*16], a[8], b[8], x[8];
    if (!strcmp(op, "solve")) { for (int k = 0; k < 8; k++) x[k] = -5; jl("{\"op\":\"solve\""); int r = aa_opt_solve(CX, N, x); sol(r, x, N); }
    else if (!strcmp(op, "dir")) { int r = aa_opt_set_direction(CX, !strcmp(ts(1), "max") ? AA_OPT_MAXIMIZE : AA_OPT_MINIMIZE); jl("{\"op\":\"dir\",\"dir\":\"%s\",\"r\":%d}", ts(1), r); jflush(); }
    else if (!strcmp(op, "obj")) { jl("{\"op\":\"obj\""); vals(1, a, N, "c"); jl(",\"r\":%d}", aa_opt_set_obj(CX, N, a)); jflush(); }
    else if (!strcmp(op, "bnd")) { jl("{\"op\":\"bnd\""); int i = vals(1, a, N, "xl"); vals(i, b, N, "xu"); jl(",\"r\":%d}", aa_opt_set_bnd(CX, N, a, b)); jflush(); }
    else if (!strcmp(op, "cstr")) { size_t ld = M + (size_t)ti(1); jl("{\"op\":\"cstr\""); int i = mat(2, A, M, N, ld); i = vals(i, a, M, "bl"); vals(i, b, M, "bu"); jl(",\"r\":%d}", aa_opt_set_cstr_gm(CX, M, N, A, ld, a, b)); jflush(); }
    else if (!strcmp(op, "type")) { const char *t = ts(2); int r = aa_opt_set_type(CX, (size_t)ti(1), !strcmp(t, "cont") ? AA_OPT_CONTINUOUS : !strcmp(t, "int") ? AA_OPT_INTEGER : AA_OPT_BINARY); jl("{\"op\":\"type\",\"i\":%ld,\"type\":\"%s\",\"r\":%d}", ti(1), t, r); jflush(); }
    else if (!strcmp(op, "quad")) { double Q[1] = {1}; int c[1] = {0}, rp[9] = {0, 1, 1, 1, 1, 1, 1, 1, 1}; int r = aa_opt_set_quad_obj_crs(CX, N, Q, c, rp); jl("{\"op\":\"quad\",\"r\":%d}", r); jflush(); }
    else bad_script("op", op);
}
DRV_MAIN
