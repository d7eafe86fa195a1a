/* Integrators, linear simulation, finite differences, planar arm. */
#include "amino.h"
#include "amino/diffeq.h"
#include "drv.h"
static void trace_begin(void) {}
static void trace_end(void) {}
/* P(t) with integer coefficients; d-th derivative */
static int D, N; static double CO[16];
static double P(int d, double t) { double r = 0; for (int k = D; k >= d; k--) { double c = CO[k]; for (int j = 0; j < d; j++) c *= k - j; r = r * t + c; } return r; }
static int calls;
static void sys(const void *cx, double t, const double *x, double *dx) { (void)cx; calls++; dx[0] = P(N, t); for (int i = 1; i < N; i++) dx[i] = x[i-1]; }
struct rec { int n, stop, code, clamp; double t[256], x[256][8], y[256][8]; };
static int chk(void *cx, double t, double *x, double *y) {
    struct rec *r = cx; if (r->n >= 256) return -99;
    r->t[r->n] = t; for (int i = 0; i < N; i++) { r->x[r->n][i] = x[i]; r->y[r->n][i] = y[i]; }
    r->n++;
    if (r->clamp) for (int i = 0; i < N; i++) x[i] += r->clamp;     /* the caller may move the state */
    return r->n >= r->stop ? r->code : 0;
}
static void seq(struct rec *r) {
    double v[256*8]; int n = r->n; jl(",\"n\":%d", n); jdarr("t", r->t, (size_t)n, 1024, 1e-6);
    for (int i = 0; i < n; i++) for (int j = 0; j < N; j++) v[i*N+j] = r->x[i][j];
    jdarr("x", v, (size_t)(n*N), 1000, -1);
    for (int i = 0; i < n; i++) for (int j = 0; j < N; j++) v[i*N+j] = r->y[i][j];
    jdarr("y", v, (size_t)(n*N), 1000, -1);
}
static double quad(void *cx, const struct aa_dvec *x) { double *c = cx; int n = (int)x->len; double r = 0; for (int i = 0; i < n; i++) { double xi = x->data[(size_t)i*x->inc]; r += c[i]*xi; for (int j = 0; j < n; j++) r += c[n+i*n+j]*xi*x->data[(size_t)j*x->inc]; } return r; }
static int FM;
static void vquad(void *cx, const struct aa_dvec *x, struct aa_dvec *y) { double *c = cx; int n = (int)x->len; for (int i = 0; i < FM; i++) y->data[(size_t)i*y->inc] = quad(c + i*(n+n*n), x); }
static void trace_cmd(void) {
    struct aa_mem_region *lr = aa_mem_region_local_get(); void *top = aa_mem_region_ptr(lr);
    const char *op = TOK[0]; int k = 1, g = 1; double z[128]; for (int i = 0; i < 128; i++) z[i] = 777 + i % 5;
    jl("{\"op\":\"%s\",\"a\":[", op); for (int i = 1; i < NTOK; i++) jl("%s%ld", i > 1 ? "," : "", ti(i)); jl("]");
    if (!strcmp(op, "step")) { /* method n D t0(/4) dt(/4) coefs */
        int me = (int)ti(k); N = (int)ti(k+1); D = (int)ti(k+2); double t0 = td(k+3)/4, dt = td(k+4)/4; k += 5; for (int i = 0; i <= D; i++) CO[i] = td(k++);
        double x0[8], x1[16], x2[16], K[64], c0[8]; for (int i = 0; i < N; i++) x0[i] = P(N-1-i, t0); for (int i = 0; i < 16; i++) x1[i] = x2[i] = 777; for (int i = 0; i < 64; i++) K[i] = 777;
        sys(0, t0, x0, K); memcpy(c0, x0, sizeof c0); int nk = me == 6 ? 4 : me == 5 ? 6 : 5; size_t n = (size_t)N;
        switch (me) { case 0: aa_odestep_rk1(n, sys, 0, t0, dt, x0, x1); break; case 1: aa_odestep_rk2(n, sys, 0, t0, dt, x0, x1); break; case 2: aa_odestep_rk4(n, sys, 0, t0, dt, x0, x1); break;
            case 3: aa_odestep_rkf45(n, sys, 0, t0, dt, x0, K, x1, x2); break; case 4: aa_odestep_rkck45(n, sys, 0, t0, dt, x0, K, x1, x2); break; case 5: aa_odestep_dorpri45(n, sys, 0, t0, dt, x0, K, x1, x2); break; case 6: aa_odestep_rkbs23(n, sys, 0, t0, dt, x0, K, x1, x2); break;
            case 7: { double dx[8]; sys(0, t0, x0, dx); aa_odestep_euler(n, dt, dx, x0, x1); } break; default: bad_script("method", op); }
        if (memcmp(c0, x0, sizeof(double)*n)) g = 0;
        double k0[8]; sys(0, t0, x0, k0); if (me >= 3 && me <= 6 && memcmp(k0, K, sizeof(double)*n)) g = 0; /* first column kept */
        for (int i = N; i < 16; i++) if (x1[i] != 777 || x2[i] != 777) g = 0;
        for (int i = nk*N; i < 64; i++) if (K[i] != 777) g = 0;
        jdarr("x", x1, n, 1000, -1); if (me >= 3 && me <= 6) jdarr("y", x2, n, 1000, -1); else jl(",\"y\":[]");
        if (me == 5 || me == 6) { double kl[8]; sys(0, t0 + dt, x1, kl); for (int i = 0; i < N; i++) if (fabs(kl[i] - K[(nk-1)*N+i]) > 1e-9) g = 0; } /* last column: derivative at the first result */
    } else if (!strcmp(op, "sol") || !strcmp(op, "path")) { /* method n D t0 dt stop code tolexp decfac%% incfac%% clamp ; path adds: region kind */
        int me = (int)ti(k); N = (int)ti(k+1); D = (int)ti(k+2); double t0 = td(k+3)/4, dt = td(k+4)/4; static struct rec r; memset(&r, 0, sizeof r); r.stop = (int)ti(k+5); r.code = (int)ti(k+6);
        struct aa_ode_sol_opts o; o.adapt_tol_dec = pow(10, -td(k+7)); o.adapt_tol_inc = o.adapt_tol_dec / 1e4; o.adapt_factor_dec = td(k+8)/100; o.adapt_factor_inc = td(k+9)/100; r.clamp = (int)ti(k+10); k += 11; for (int i = 0; i <= D; i++) CO[i] = td(k++);
        double x0[8], x1[16]; for (int i = 0; i < N; i++) x0[i] = P(N-1-i, t0); for (int i = 0; i < 16; i++) x1[i] = 777;
        if (op[0] == 's') { int rc = aa_ode_sol((enum aa_ode_integrator)me, &o, (size_t)N, sys, 0, chk, &r, t0, dt, x0, x1); jl(",\"r\":%d", rc); seq(&r); jdarr("z", x1, (size_t)N, 1000, -1); for (int i = N; i < 16; i++) if (x1[i] != 777) g = 0; }
        else {
            int own = (int)ti(k++); struct aa_mem_region rg; aa_mem_region_init(&rg, 64); struct aa_mem_region *use = own ? &rg : lr; size_t np = 12345; double *path = NULL;
            int rc = aa_ode_path((enum aa_ode_integrator)me, &o, (size_t)N, sys, 0, chk, &r, t0, dt, x0, use, &np, &path); jl(",\"r\":%d", rc); seq(&r); jl(",\"np\":%zu", np);
            if (np == (size_t)r.n + 1) jdarr("z", path, np*(size_t)N, 1000, -1); else jl(",\"z\":[]");
            if (!own) aa_mem_region_pop(lr, path);
            aa_mem_region_destroy(&rg);
        }
    } else if (!strcmp(op, "lsim")) { /* m n : A B x0 u ; dt = 1/2 */
        int m = (int)ti(k), n = (int)ti(k+1); k += 2; double A[16], B[16], x[4], u[4], o[3][8]; for (int i = 0; i < m*m; i++) A[i] = td(k++); for (int i = 0; i < m*n; i++) B[i] = td(k++); for (int i = 0; i < m; i++) x[i] = td(k++); for (int i = 0; i < n; i++) u[i] = td(k++);
        for (int i = 0; i < 8; i++) o[0][i] = o[1][i] = o[2][i] = 777;
        aa_lsim_dstep((size_t)m, (size_t)n, A, B, x, u, o[0]); aa_lsim_estep((size_t)m, (size_t)n, .5, A, B, x, u, o[1]); aa_lsim_rk4step((size_t)m, (size_t)n, .5, A, B, x, u, o[2]);
        for (int i = m; i < 8; i++) if (o[0][i] != 777 || o[1][i] != 777 || o[2][i] != 777) g = 0;
        double dx[8]; aa_sys_affine_t cx = { (size_t)m, A, x }; aa_sys_affine(&cx, 3.5, x, dx);
        jdarr("d", o[0], (size_t)m, 1, 1e-9); jdarr("e", o[1], (size_t)m, 2, 1e-9); jdarr("x", o[2], (size_t)m, 384, 1e-6); jdarr("f", dx, (size_t)m, 1, 1e-9);
    } else if (!strcmp(op, "grad")) { /* n incx incy : b M x */
        int n = (int)ti(k), ix = (int)ti(k+1), iy = (int)ti(k+2); k += 3; double c[32], xv[32]; for (int i = 0; i < n+n*n; i++) c[i] = td(k++); for (int i = 0; i < 32; i++) xv[i] = 99; for (int i = 0; i < n; i++) xv[i*ix] = td(k++);
        struct aa_dvec x = AA_DVEC_INIT((size_t)n, xv, (size_t)ix), y = AA_DVEC_INIT((size_t)n, z, (size_t)iy); aa_de_grad_fd(quad, c, &x, .5, &y); double o[8]; for (int i = 0; i < n; i++) { o[i] = z[i*iy]; z[i*iy] = 777 + (i*iy) % 5; } jdarr("x", o, (size_t)n, 1, 1e-9);
    } else if (!strcmp(op, "jac")) { /* n m incx ld : m times (b M) ; x */
        int n = (int)ti(k), m = (int)ti(k+1), ix = (int)ti(k+2), ld = (int)ti(k+3); k += 4; FM = m; double c[128], xv[32]; for (int i = 0; i < m*(n+n*n); i++) c[i] = td(k++); for (int i = 0; i < 32; i++) xv[i] = 99; for (int i = 0; i < n; i++) xv[i*ix] = td(k++);
        struct aa_dvec x = AA_DVEC_INIT((size_t)n, xv, (size_t)ix); struct aa_dmat J = AA_DMAT_INIT((size_t)m, (size_t)n, z, (size_t)ld); aa_de_jac_fd(vquad, c, &x, .25, &J); double o[32]; for (int j = 0; j < n; j++) for (int i = 0; i < m; i++) { o[j*m+i] = z[j*ld+i]; z[j*ld+i] = 777 + (j*ld+i) % 5; } jdarr("x", o, (size_t)(m*n), 1, 1e-9);
    } else if (!strcmp(op, "arm")) { double l[2] = {td(k), td(k+1)}, x[2] = {td(k+2), td(k+3)}, a[2], b[2]; int r = aa_kin_planar2_ik_theta2(l, x, a, b); jl(",\"r\":%d", r != 0);
        double o[8] = {cos(a[0]), sin(a[0]), cos(a[1]), sin(a[1]), cos(b[0]), sin(b[0]), cos(b[1]), sin(b[1])}; jdarr("x", o, 8, 10000, -1);
    } else bad_script("op", op);
    for (int i = 0; i < 128; i++) if (z[i] != 777 + i % 5) g = 0;
    jl(",\"g\":%d,\"rg\":%d}", g, top == aa_mem_region_ptr(lr)); jflush();
}
DRV_MAIN
