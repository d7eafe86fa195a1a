/* Linear algebra algorithms: factorisations, solvers, assignment, statistics, interpolation. */
#include "amino.h"
#include "drv.h"
#define SC 10000.0
#define T double
#define F d
#include "la_t.h"
#undef T
#undef F
#define T float
#define F s
#include "la_t.h"
static void trace_begin(void) {}
static void trace_end(void) {}
static void dv(double *v, int n, int *k) { for (int i = 0; i < n; i++) v[i] = td((*k)++); }
static void d_run(void) {
    const char *op = TOK[0]; int k = 2, g = 1; double A[64], B[64], x[64], y[64], z[64];
    for (int i = 0; i < 64; i++) z[i] = 777 + i % 5;
    int nz = 0; /* elements of z that may change */
    if (!strcmp(op, "inv")) { int n = (int)ti(k++); dv(z, n*n, &k); nz = n*n; int r = aa_la_inv((size_t)n, z); jl(",\"r\":%d", r); jdarr("x", z, (size_t)nz, SC, -1); }
    else if (!strcmp(op, "det3")) { dv(A, 9, &k); double d = aa_la_det3x3(A); jdarr("d", &d, 1, 1, 1e-6); }
    else if (!strcmp(op, "dls") || !strcmp(op, "dlsnp")) {
        int m = (int)ti(k), n = (int)ti(k+1); double d = td(k+2); k += 3; dv(A, m*n, &k); dv(x, m, &k); nz = n;
        if (op[3]) { dv(y, n, &k); aa_la_dlsnp((size_t)m, (size_t)n, d, A, x, y, z); } else aa_la_dls((size_t)m, (size_t)n, d, A, x, z);
        jdarr("x", z, (size_t)n, SC, -1);
    } else if (!strcmp(op, "np")) {
        int m = (int)ti(k), n = (int)ti(k+1); k += 2; dv(A, m*n, &k); dv(B, n*m, &k); dv(x, m, &k); dv(y, n, &k); double N[64], o[64];
        for (int i = 0; i < 64; i++) N[i] = 777 + i % 5;
        aa_la_np((size_t)m, (size_t)n, A, B, N); for (int i = n*n; i < 64; i++) if (N[i] != 777 + i % 5) g = 0;
        nz = n; aa_la_xlsnp((size_t)m, (size_t)n, A, B, x, y, z); (void)o;
        jdarr("n", N, (size_t)(n*n), 1, 1e-9); jdarr("x", z, (size_t)n, 1, 1e-9);
    } else if (!strcmp(op, "vec")) {
        int n = (int)ti(k), al = (int)ti(k+1); k += 2; dv(x, n, &k); dv(y, n, &k);
        double s[8] = { aa_la_min((size_t)n, x), aa_la_max((size_t)n, x), aa_la_dot((size_t)n, x, y), aa_la_norm((size_t)n, x), aa_la_ssd((size_t)n, x, y), aa_la_dist((size_t)n, x, y) };
        s[3] *= s[3]; s[5] *= s[5]; jdarr("s", s, 6, 1, 1e-6);
        jl(",\"v\":[");
        for (int f = 0; f < 12; f++) {
            for (int i = 0; i < 64; i++) z[i] = 777 + i % 5;
            for (int i = 0; i < n; i++) z[i] = y[i];
            switch (f) {
            case 0: aa_la_sinc((size_t)n, al, z); break; case 1: aa_la_vinc((size_t)n, x, z); break; case 2: aa_la_axpy((size_t)n, al, x, z); break;
            case 3: { double w[64]; memcpy(w, z, sizeof w); for (int i = 0; i < n; i++) z[i] = 0; aa_la_axpy3((size_t)n, al, x, w, z); } break;
            case 4: aa_la_scal((size_t)n, al, z); break; case 5: aa_la_sadd((size_t)n, al, x, z); break; case 6: aa_la_smul((size_t)n, al, x, z); break; case 7: aa_la_ssub((size_t)n, al, x, z); break;
            case 8: aa_la_vadd((size_t)n, x, y, z); break; case 9: aa_la_vsub((size_t)n, x, y, z); break; case 10: aa_la_vmul((size_t)n, x, y, z); break;
            case 11: aa_la_normalize((size_t)n, z); { double q = 0; for (int i = 0; i < n; i++) q += z[i]*z[i]; double l = aa_la_norm((size_t)n, y); if (l > 0) { if (fabs(q - 1) > 1e-9) g = 0; for (int i = 0; i < n; i++) z[i] *= l; } else for (int i = 0; i < n; i++) z[i] = 0; } break;
            }
            for (int i = n; i < 64; i++) if (z[i] != 777 + i % 5) g = 0;
            jl("%s[", f ? "," : ""); for (int i = 0; i < n; i++) jl("%s%ld", i ? "," : "", q_int(z[i], 1, 1e-6)); jl("]");
        }
        jl("]"); nz = 64;
        double sd = 1; for (int i = 0; i < n; i++) if (x[i] == 0) sd = 0;
        jl(",\"dz\":%d", (int)sd);
        if (sd > 0) { aa_la_sdiv((size_t)n, al, x, z); jdarr("sd", z, (size_t)n, SC, -1); aa_la_vdiv((size_t)n, y, x, z); jdarr("vd", z, (size_t)n, SC, -1); } else jl(",\"sd\":[],\"vd\":[]");
    } else if (!strcmp(op, "mat")) {
        int m = (int)ti(k), n = (int)ti(k+1); k += 2; dv(A, m*n, &k); dv(x, n, &k); dv(y, n, &k); nz = n*m; aa_la_transpose2((size_t)m, (size_t)n, A, z); jdarr("t", z, (size_t)nz, 1, 1e-9);
        for (int i = nz; i < 64; i++) if (z[i] != 777 + i % 5) g = 0;
        for (int i = 0; i < 64; i++) z[i] = 777 + i % 5;
        aa_la_mvmul((size_t)m, (size_t)n, A, x, z); nz = m; jdarr("mv", z, (size_t)m, 1, 1e-9);
        if (m == n) { double tr = aa_la_trace((size_t)n, A), wd = aa_la_wdot((size_t)n, x, A, y); aa_la_transpose((size_t)n, A); jdarr("tr", &tr, 1, 1, 1e-9); jdarr("wd", &wd, 1, 1, 1e-9); jdarr("u", A, (size_t)(n*n), 1, 1e-9); }
        else jl(",\"tr\":[],\"wd\":[],\"u\":[]");
    } else if (!strcmp(op, "cross")) { dv(x, 3, &k); dv(y, 3, &k); aa_la_cross(x, y, z); nz = 3; jdarr("x", z, 3, 1, 1e-9); }
    else if (!strcmp(op, "terp")) { /* n t0 t1 t2 ti ; n triples a b c : values a+bt+ct^2 (parabola) and a+bt (line) */
        int n = (int)ti(k); double t0 = td(k+1), t1 = td(k+2), t2 = td(k+3), t = td(k+4)/2; k += 5; double X0[8], X1[8], X2[8], L0[8], L1[8], q[8];
        for (int i = 0; i < n; i++) { double a = td(k), b = td(k+1), c = td(k+2); k += 3; X0[i] = a+b*t0+c*t0*t0; X1[i] = a+b*t1+c*t1*t1; X2[i] = a+b*t2+c*t2*t2; L0[i] = a+b*t0; L1[i] = a+b*t1; }
        aa_la_linterp((size_t)n, t0, L0, t1, L1, t, q); jdarr("l", q, (size_t)n, SC, -1); aa_la_quadterp((size_t)n, t0, X0, t1, X1, t2, X2, t, q); jdarr("q", q, (size_t)n, SC, -1);
        aa_la_quadterp_dx((size_t)n, t0, X0, t1, X1, t2, X2, t, q); jdarr("d", q, (size_t)n, SC, -1);
    } else if (!strcmp(op, "pdist")) { int n = (int)ti(k++); dv(x, n, &k); dv(z, n + 1, &k); nz = n + 1; double d = aa_la_point_plane((size_t)n, x, z); aa_la_plane_hessian((size_t)n + 1, z); jdarr("d", &d, 1, SC, -1); jdarr("x", z, (size_t)nz, SC, -1); }
    else if (!strcmp(op, "care")) {
        int m = (int)ti(k), n = (int)ti(k+1), p = (int)ti(k+2); k += 3; dv(A, m*m, &k); dv(B, m*n, &k); dv(x, p*m, &k); nz = m*m; int r = aa_la_care_laub((size_t)m, (size_t)n, (size_t)p, A, B, x, z); jl(",\"r\":%d", r); jdarr("x", z, (size_t)nz, SC, -1);
    } else bad_script("op", op);
    for (int i = nz; i < 64; i++) if (z[i] != 777 + i % 5) g = 0;
    jl(",\"g\":%d", g);
}
static void trace_cmd(void) {
    void *top = aa_mem_region_ptr(aa_mem_region_local_get());
    jl("{\"op\":\"%s\",\"f\":%ld,\"a\":[", TOK[0], ti(1)); for (int i = 2; i < NTOK; i++) jl("%s%ld", i > 2 ? "," : "", ti(i)); jl("]");
    if (ti(1) == 0) run_d(); else if (ti(1) == 1) run_s(); else d_run();
    jl(",\"rg\":%d}", top == aa_mem_region_ptr(aa_mem_region_local_get())); jflush();
}
DRV_MAIN
