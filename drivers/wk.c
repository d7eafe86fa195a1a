/* Workspace control over the scenes of scene.c. */
#define SCENE_NO_MAIN
#include "drv.h"
#define trace_begin scene_begin
#define trace_cmd scene_cmd
#define trace_end scene_end
#include "scene.c"
#undef trace_begin
#undef trace_cmd
#undef trace_end
#include "amino/rx/scene_wk.h"
#include "amino/opt/opt.h"
#include "amino/rx/scene_wk_internal.h"
static void trace_begin(void) { scene_begin(); }
static void trace_end(void) { scene_end(); }
static void lv(const char *k, const double *x, size_t n) { jdarr(k, x, n, 1e5, -1); }
static void toks(const char *k, int i, size_t n) { jl(",\"%s\":[", k); for (size_t j = 0; j < n; j++) jl("%s%ld", j ? "," : "", ti(i + (int)j)); jl("]"); }
/* T1 = exp(spatial twist) T0 for the body velocity (v, w) of the frame origin */
static void integ(const double T0[12], const double v[3], const double w[3], double T1[12]) {
    double th = sqrt(w[0]*w[0]+w[1]*w[1]+w[2]*w[2]), K[9] = {0, w[2], -w[1], -w[2], 0, w[0], w[1], -w[0], 0}, K2[9], R[9], V[9];
    for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) { K2[i+3*j] = 0; for (int k = 0; k < 3; k++) K2[i+3*j] += K[i+3*k]*K[k+3*j]; }
    double a = th < 1e-6 ? 1 : sin(th)/th, b = th < 1e-6 ? .5 : (1-cos(th))/(th*th), c = th < 1e-6 ? 1./6 : (th-sin(th))/(th*th*th);
    for (int i = 0; i < 9; i++) { double I = i % 4 == 0; R[i] = I + a*K[i] + b*K2[i]; V[i] = I + b*K[i] + c*K2[i]; }
    const double *p = T0+9; double vs[3] = {v[0]-(w[1]*p[2]-w[2]*p[1]), v[1]-(w[2]*p[0]-w[0]*p[2]), v[2]-(w[0]*p[1]-w[1]*p[0])};
    for (int i = 0; i < 3; i++) { for (int j = 0; j < 3; j++) { T1[i+3*j] = 0; for (int k = 0; k < 3; k++) T1[i+3*j] += R[i+3*k]*T0[k+3*j]; } T1[9+i] = 0; for (int k = 0; k < 3; k++) T1[9+i] += R[i+3*k]*p[k] + V[i+3*k]*vs[k]; }
}
static struct aa_rx_wk_opts *opts(const char *mode, double k) {
    struct aa_rx_wk_opts *o = aa_rx_wk_opts_create();
    if (!strcmp(mode, "dz")) { o->s2min = 1e-6; o->k_dls = 1; } else if (!strcmp(mode, "dls")) { o->s2min = 0; o->k_dls = k; } else { o->s2min = 0; o->k_dls = 0; }
    return o;
}
static void trace_cmd(void) {
    const char *op = TOK[0];
    if (strncmp(op, "wk", 2)) { scene_cmd(); return; }
    struct aa_mem_region *reg = aa_mem_region_local_get(); void *p0 = aa_mem_region_ptr(reg);
    if (!strcmp(op, "wkpos")) { /* wkpos qnegs inc ga2 gt2 A:q4v3vd R:q4v3vd d0*6 */
        double A[7], R[7], T0[12], T1[12], d[6*4], b[6]; long neg = ti(1); size_t inc = (size_t)ti(2); readqv(5, A, A+4); readqv(13, R, R+4);
        if (neg & 1) for (int i = 0; i < 4; i++) A[i] = -A[i]; if (neg & 2) for (int i = 0; i < 4; i++) R[i] = -R[i];
        struct aa_rx_wk_opts *o = aa_rx_wk_opts_create(); struct aa_dvec v; for (int i = 0; i < 6; i++) b[i] = 0; aa_dvec_view(&v, 6, b, 1); o->gain_angle = o->gain_trans = 1; aa_rx_wk_dx_pos(o, A, R, &v);
        for (int i = 0; i < 24; i++) d[i] = -77; for (int i = 0; i < 6; i++) d[(size_t)i*inc] = td(21+i); aa_dvec_view(&v, 6, d, inc); o->gain_angle = td(3)/2; o->gain_trans = td(4)/2; aa_rx_wk_dx_pos(o, A, R, &v);
        double r[6]; int pad = 1; for (int i = 0; i < 24; i++) { if (i % (int)inc == 0 && i/(int)inc < 6) r[i/(int)inc] = d[i]; else if (d[i] != -77) pad = 0; }
        su_qutr2p(A, T0); double b2[6]; for (int i = 0; i < 6; i++) b2[i] = 2*b[i]; integ(T0, b2 + AA_TF_DX_V, b2 + AA_TF_DX_W, T1);
        jl("{\"op\":\"wkpos\",\"ga\":%ld,\"gt\":%ld,\"rq\":[%ld,%ld,%ld,%ld],\"rv\":[%ld,%ld,%ld],\"rd\":%ld,\"pad\":%d,\"got\":", ti(3), ti(4), ti(13), ti(14), ti(15), ti(16), ti(17), ti(18), ti(19), ti(20), pad); pose(T1, 1);
        const double *w = b2 + AA_TF_DX_W; jl(",\"th\":%ld", q_rnd(sqrt(w[0]*w[0]+w[1]*w[1]+w[2]*w[2]), 1e5)); toks("d0", 21, 6); lv("b", b, 6); lv("r", r, 6); jl("}"); jflush(); aa_rx_wk_opts_destroy(o); return;
    }
    struct aa_rx_sg *g = g_(1); size_t nq = aa_rx_sg_config_count(g); double q[256];
    long k = ti(2); if (k < 1 || k > NS || SG[k-1] != ti(1)) bad_script("sub", op); struct aa_rx_sg_sub *s = S[k-1]; size_t n = aa_rx_sg_sub_config_count(s);
    if (n == 0 || n > 20) return;
    double x[64], y[64], dx[6*3], dq[64*3], z[64], J[6*64];
    if (!strcmp(op, "wkcenter")) { /* wkcenter g k gain2 inc (q2)*20 */
        struct aa_rx_wk_opts *o = aa_rx_wk_opts_create(); o->gain_np = td(3)/2; size_t inc = (size_t)ti(4); for (size_t i = 0; i < 64*3; i++) dq[i] = -77; double qq[64*3]; for (size_t i = 0; i < n; i++) qq[i*inc] = td(5+(int)i)/2;
        struct aa_dvec v, d; aa_dvec_view(&v, n, qq, inc); aa_dvec_view(&d, n, dq, inc); aa_rx_wk_dqcenter(s, o, &v, &d);
        int pad = 1; for (size_t i = 0; i < 64*3; i++) if (!(i % inc == 0 && i/inc < n) && dq[i] != -77) pad = 0; for (size_t i = 0; i < n; i++) z[i] = dq[i*inc];
        jl("{\"op\":\"wkcenter\",\"g\":%ld,\"k\":%ld,\"gain\":%ld,\"pad\":%d", ti(1), k, ti(3), pad); toks("q2", 5, n); lv("d", z, n); jl("}"); jflush(); aa_rx_wk_opts_destroy(o); return;
    }
    /* the remaining commands: OP g k mode kd2 inc (ints)*60 (n d)*nq */
    const char *mode = ts(3); size_t inc = (size_t)ti(5); int I0 = 6, C0 = 66; readcfg(g, C0, q);
    struct aa_dvec vq; aa_dvec_view(&vq, nq, q, 1); struct aa_rx_fk *fk = aa_rx_fk_malloc(g); aa_rx_fk_all(fk, &vq); struct aa_rx_wk_opts *o = opts(mode, td(4)/2);
    struct aa_dmat mJ; aa_dmat_view(&mJ, 6, n, J, 6); aa_rx_sg_sub_jac_vel_fill(s, fk, &mJ);
    struct aa_dvec vdx, vdq, vx; aa_dvec_view(&vdx, 6, dx, inc); aa_dvec_view(&vdq, n, dq, inc); aa_dvec_view(&vx, n, x, 1);
    for (size_t i = 0; i < 18; i++) dx[i] = -77; for (size_t i = 0; i < 64*3; i++) dq[i] = -77;
    int rc = 0, pad = 1; jl("{\"op\":\"%s\",\"g\":%ld,\"k\":%ld,\"mode\":\"%s\",\"kd\":%ld", op, ti(1), k, mode, ti(4)); logcfg(nq, C0);
    if (!strcmp(op, "wkls")) { /* arbitrary dx */
        for (size_t i = 0; i < 6; i++) dx[i*inc] = td(I0+(int)i); rc = aa_rx_wk_dx2dq(s, o, fk, &vdx, &vdq);
        for (size_t i = 0; i < n; i++) z[i] = dq[i*inc]; toks("dx", I0, 6); lv("dq", z, n);
    } else if (!strcmp(op, "wknp")) { /* dx = J x, dq_r = x: the result is x; and np(0, x) + dx2dq(J x) = x; J np(0,x) */
        for (size_t i = 0; i < n; i++) x[i] = td(I0+(int)i); for (size_t i = 0; i < 6; i++) { double a = 0; for (size_t j = 0; j < n; j++) a += J[i+6*j]*x[j]; dx[i*inc] = a; }
        rc = aa_rx_wk_dx2dq_np(s, o, fk, &vdx, &vx, &vdq); for (size_t i = 0; i < n; i++) z[i] = dq[i*inc]; toks("x", I0, n); lv("np", z, n);
        rc |= aa_rx_wk_dx2dq(s, o, fk, &vdx, &vdq); for (size_t i = 0; i < n; i++) z[i] = dq[i*inc]; lv("row", z, n);
        for (size_t i = 0; i < 6; i++) dx[i*inc] = 0; rc |= aa_rx_wk_dx2dq_np(s, o, fk, &vdx, &vx, &vdq); for (size_t i = 0; i < n; i++) z[i] = dq[i*inc]; lv("nul", z, n);
    } else if (!strcmp(op, "wksym")) { /* the map x -> dx2dq(J x), column by column */
        jl(",\"P\":["); for (size_t c = 0; c < n; c++) { for (size_t i = 0; i < 6; i++) dx[i*inc] = J[i+6*c]; rc |= aa_rx_wk_dx2dq(s, o, fk, &vdx, &vdq); jl("%s[", c ? "," : ""); for (size_t i = 0; i < n; i++) jl("%s%ld", i ? "," : "", q_rnd(dq[i*inc], 1e5)); jl("]"); } jl("]");
    } else if (!strcmp(op, "wklc3")) { /* ints: solver dtD  dx*6  qa2*8 dqa2*8 dqr2*8 */
        long sv = ti(I0), D = ti(I0+1); int a = I0+2, b = I0+8, c = I0+16, d = I0+24; double qa[64*3], dqa[64], dqr[64*2];
        o->lp_solver = sv == 1 ? AA_OPT_LP_SOLVER_LPSOLVE : sv == 2 ? AA_OPT_LP_SOLVER_CLP : AA_OPT_LP_SOLVER_DEFAULT;
        for (size_t i = 0; i < 6; i++) dx[i*inc] = td(a+(int)i)/2; for (size_t i = 0; i < n; i++) { qa[i*inc] = td(b+(int)(i%8))/2; dqa[i] = td(c+(int)(i%8))/2; dqr[2*i] = td(d+(int)(i%8))/2; }
        struct aa_dvec vqa, vda, vdr; aa_dvec_view(&vqa, n, qa, inc); aa_dvec_view(&vda, n, dqa, 1); aa_dvec_view(&vdr, n, dqr, 2);
        struct aa_rx_wk_lc3_cx *L = aa_rx_wk_lc3_create(s, o); int bad = aa_rx_wk_dx2dq_lc3(L, 0, fk, &vdx, &vqa, &vda, &vdr, &vdq) || 0; int neg = aa_rx_wk_dx2dq_lc3(L, -1, fk, &vdx, &vqa, &vda, &vdr, &vdq) != 0; for (size_t i = 0; i < 64*3; i++) if (dq[i] != -77) neg = 0;
        rc = aa_rx_wk_dx2dq_lc3(L, 1./(double)D, fk, &vdx, &vqa, &vda, &vdr, &vdq); for (size_t i = 0; i < n; i++) z[i] = dq[i*inc];
        struct aa_dvec vy; aa_dvec_view(&vy, n, y, 1); aa_rx_wk_dx2dq_np(s, o, fk, &vdx, &vdr, &vy); aa_rx_wk_lc3_destroy(L);
        jl(",\"n\":%zu,\"D\":%ld,\"bad\":%d,\"neg\":%d", n, D, bad, neg); jl(",\"qa\":["); for (size_t i = 0; i < n; i++) jl("%s%ld", i ? "," : "", ti(b+(int)(i%8))); jl("],\"dqa\":["); for (size_t i = 0; i < n; i++) jl("%s%ld", i ? "," : "", ti(c+(int)(i%8))); jl("]");
        lv("dq", z, rc ? 0 : n); lv("free", y, n);
    } else bad_script("op", op);
    for (size_t i = 0; i < 64*3; i++) if (!(i % inc == 0 && i/inc < n) && dq[i] != -77) pad = 0;
    int bal = aa_mem_region_ptr(reg) == p0; aa_mem_region_pop(reg, p0);
    jl(",\"rc\":%d,\"pad\":%d,\"bal\":%d}", rc, pad, bal); jflush(); aa_rx_fk_destroy(fk); aa_rx_wk_opts_destroy(o);
}
DRV_MAIN
