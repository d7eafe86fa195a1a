/* Inverse kinematics: contexts, verdicts, solutions and objective functions over the scenes of scene.c. */
#define SCENE_NO_MAIN
#include "drv.h"
#define trace_begin scene_begin
#define trace_cmd scene_cmd
#define trace_end scene_end
#include "scene.c"
#undef trace_begin
#undef trace_cmd
#undef trace_end
#include "amino/rx/rxerr.h"
static struct aa_rx_ik_parm *PM; static struct aa_rx_ik_cx *CX; static long CK; static int ALGO;
static double TOLA, TOLX;
static void freecx(void) { if (CX) aa_rx_ik_cx_destroy(CX); if (PM) aa_rx_ik_parm_destroy(PM); CX = NULL; PM = NULL; }
static void trace_begin(void) { CX = NULL; PM = NULL; scene_begin(); }
static void trace_end(void) { freecx(); scene_end(); }
static struct aa_rx_sg_sub *sub_(void) { if (!CX || CK < 1 || CK > NS) bad_script("ik", TOK[0]); return S[CK-1]; }
static void prs(int i, size_t n, const char *k) { jl(",\"%s\":[", k); for (size_t j = 0; j < n; j++) jl("%s[%ld,%ld]", j ? "," : "", ti(i + 2*(int)j), ti(i + 2*(int)j + 1)); jl("]"); }
/* values of the sub-scenegraph's configurations from a full configuration */
static void subq(struct aa_rx_sg_sub *s, const double *q, double *qs) { for (size_t i = 0; i < aa_rx_sg_sub_config_count(s); i++) qs[i] = q[aa_rx_sg_sub_config(s, i)]; }
static void fkat(struct aa_rx_sg *g, size_t nq, double *q, long f, double T[12]) {
    size_t nf = aa_rx_sg_frame_count(g); double *rel = calloc(12*nf+1, 8), *ab = calloc(12*nf+1, 8);
    aa_rx_sg_tfmat(g, nq, q, nf, rel, 12, ab, 12); memcpy(T, ab + 12*(size_t)f, 96); free(rel); free(ab);
}
static void resid(const double A[12], const double T[12], double *th, double *x) {
    /* Frobenius distance gives the angle without loss of precision near zero: |A-T|_F = 2 sqrt2 sin(th/2) */
    double d = 0, e = 0; for (int i = 0; i < 9; i++) d += (A[i]-T[i])*(A[i]-T[i]); for (int i = 9; i < 12; i++) e += (A[i]-T[i])*(A[i]-T[i]);
    double sn = sqrt(d/8); *th = asin(sn > 1 ? 1 : sn); *x = sqrt(e);
}
/* rotation matrix to quaternion, independent of amino */
static void m2q(const double R[9], double q[4]) {
    double t = R[0]+R[4]+R[8], v[4] = {R[0], R[4], R[8], t}; int k = 0; for (int i = 1; i < 4; i++) if (v[i] > v[k]) k = i;
    if (k == 3) { double r = 2*sqrt(1+t); q[3] = r/4; q[0] = (R[5]-R[7])/r; q[1] = (R[6]-R[2])/r; q[2] = (R[1]-R[3])/r; }
    else { int a = k, b = (k+1)%3, c = (k+2)%3; double r = 2*sqrt(1 + R[a+3*a] - R[b+3*b] - R[c+3*c]);
        q[a] = r/4; q[b] = (R[b+3*a]+R[a+3*b])/r; q[c] = (R[c+3*a]+R[a+3*c])/r; q[3] = (R[c+3*b]-R[b+3*c])/r; }
}
static void state(void) { struct aa_dvec *a = aa_rx_ik_get_start(CX), *b = aa_rx_ik_get_seed(CX); jl(",\"same\":%d", a->inc == 1 && b->inc == 1); jdarr("start", a->data, a->len, 1e5, -1); jdarr("seed", b->data, b->len, 1e5, -1); }
/* objective probe: called by the optimiser at the seed */
static int PROBED; static double OV[5], OG[5][64], FD[5][64]; static size_t ON;
static double ofun(int k, void *cx, const double *q, double *dq) {
    switch (k) { case 0: return aa_rx_ik_opt_err_trans(cx, q, dq); case 1: return aa_rx_ik_opt_err_qlnpv(cx, q, dq); case 2: return aa_rx_ik_opt_err_dqln(cx, (double*)q, dq);
        case 3: return aa_rx_ik_opt_err_jcenter(cx, q, dq); }
    return 0;
}
static double ofd(int k, void *cx, const double *q, double *dq) { return k == 0 ? aa_rx_ik_opt_err_trans_fd(cx, q, dq) : k == 1 ? aa_rx_ik_opt_err_qlnpv_fd(cx, q, dq) : aa_rx_ik_opt_err_dqln_fd(cx, q, dq); }
static double PQ[64];
static int FDV, NULLV; static double FG[3][64];
static double probe(void *cx, const double *q, double *dq) {
    if (!PROBED) {
        PROBED = 1; memcpy(PQ, q, 8*ON); FDV = NULLV = 1; double x[64];
        for (int k = 0; k < 4; k++) {
            double g0[64]; for (size_t i = 0; i < ON; i++) g0[i] = -77;
            memcpy(x, q, 8*ON); OV[k] = ofun(k, cx, x, g0); memcpy(OG[k], g0, 8*ON); double v0 = ofun(k, cx, x, NULL); if (fabs(v0 - OV[k]) > 1e-12*(1+fabs(v0))) NULLV = 0;
            for (size_t i = 0; i < ON; i++) { double h = 1e-5; memcpy(x, q, 8*ON); x[i] = q[i]+h; double a = ofun(k, cx, x, NULL); x[i] = q[i]-h; double b = ofun(k, cx, x, NULL); FD[k][i] = (a-b)/(2*h); }
            if (k < 3) { memcpy(x, q, 8*ON); double v = ofd(k, cx, x, FG[k]); if (fabs(v - OV[k]) > 1e-9*(1+fabs(v))) FDV = 0; }
        }
    }
    if (dq) for (size_t i = 0; i < ON; i++) dq[i] = 0;
    return 0;
}
static void trace_cmd(void) {
    const char *op = TOK[0];
    if (strncmp(op, "ik", 2)) { scene_cmd(); return; }
    struct aa_rx_sg *g = g_(1); size_t nq = aa_rx_sg_config_count(g), nf = aa_rx_sg_frame_count(g); double q[256], q2[256], qs[256];
    if (!strcmp(op, "ikcx")) { /* ikcx g k algo frame ta tb tn td rt */
        freecx(); CK = ti(2); if (CK < 1 || CK > NS) bad_script("sub", op);
        PM = aa_rx_ik_parm_create(); ALGO = !strcmp(ts(3), "jpinv"); if (ALGO) aa_rx_ik_parm_set_algo(PM, AA_RX_IK_JPINV);
        long f = ti(4); if (f >= 0) aa_rx_ik_parm_set_frame(PM, (aa_rx_frame_id)f);
        TOLA = acos(sqrt(td(5)/td(6))); TOLX = td(7)/td(8); aa_rx_ik_parm_set_tol_angle(PM, TOLA); aa_rx_ik_parm_set_tol_trans(PM, TOLX); aa_rx_ik_parm_set_tol_dq(PM, 1e-4);
        CX = aa_rx_ik_cx_create(S[CK-1], PM);
        jl("{\"op\":\"ikcx\",\"g\":%ld,\"k\":%ld,\"algo\":\"%s\",\"frame\":%ld,\"tol\":[%ld,%ld,%ld,%ld]", ti(1), CK, ts(3), f, ti(5), ti(6), ti(7), ti(8)); state(); jl("}"); jflush(); return;
    }
    struct aa_rx_sg_sub *s = sub_(); size_t ns = aa_rx_sg_sub_config_count(s);
    if (ns == 0 || ns > 60) return;
    if (!strcmp(op, "ikstart")) { readcfg(g, 2, q); double *b = malloc(8*(2*nq+1)); for (size_t i = 0; i < nq; i++) { b[2*i] = q[i]; b[2*i+1] = 99; } struct aa_dvec v; aa_dvec_view(&v, nq, b, 2); aa_rx_ik_set_start(CX, &v); free(b);
        jl("{\"op\":\"ikstart\""); prs(2, nq, "q"); jdarr("obs", q, nq, 1e5, -1); state(); jl("}"); jflush(); }
    else if (!strcmp(op, "ikseed")) { readcfg(g, 2, q); subq(s, q, qs); struct aa_dvec v; aa_dvec_view(&v, ns, qs, 1); aa_rx_ik_set_seed(CX, &v); jl("{\"op\":\"ikseed\""); prs(2, nq, "q"); jdarr("obs", qs, ns, 1e5, -1); state(); jl("}"); jflush(); }
    else if (!strcmp(op, "ikcenter")) { aa_rx_ik_set_seed_center(CX); jl("{\"op\":\"ikcenter\""); state(); jl("}"); jflush(); }
    else if (!strcmp(op, "ikrand")) { aa_rx_ik_set_seed_rand(CX); jl("{\"op\":\"ikrand\""); state(); jl("}"); jflush(); }
    else if (!strcmp(op, "ikframe")) { /* ikframe g byname f */ aa_rx_frame_id f = (aa_rx_frame_id)ti(3); if (ti(2)) aa_rx_ik_set_frame_name(CX, aa_rx_sg_frame_name(g, f)); else aa_rx_ik_set_frame_id(CX, f); jl("{\"op\":\"ikframe\",\"frame\":%d}", f); jflush(); }
    else if (!strcmp(op, "ikcheck")) { /* ikcheck g qneg q4 v3 vd (n d)* : verdict for the sub-configuration, every other joint at the start */
        double E[8]; readqv(3, E, E+4); if (ti(2)) for (int i = 0; i < 4; i++) E[i] = -E[i]; readcfg(g, 11, q); subq(s, q, qs); struct aa_dmat T; aa_dmat_view(&T, 7, 1, E, 7); struct aa_dvec v; aa_dvec_view(&v, ns, qs, 1);
        struct aa_mem_region *reg = aa_mem_region_local_get(); void *p0 = aa_mem_region_ptr(reg);
        int r = aa_rx_ik_check(CX, &T, &v); int bal = aa_mem_region_ptr(reg) == p0; aa_mem_region_pop(reg, p0);
        jl("{\"op\":\"ikcheck\",\"r\":%d,\"bal\":%d,\"tq\":[%ld,%ld,%ld,%ld],\"tv\":[%ld,%ld,%ld],\"td\":%ld", r, bal, ti(3), ti(4), ti(5), ti(6), ti(7), ti(8), ti(9), ti(10)); prs(11, nq, "q"); state(); jl("}"); jflush(); }
    else if (!strcmp(op, "iksolve")) { /* iksolve g how frame rt_ms qneg (n d)* : target is the pose of frame with the chain at q, the rest at the start */
        const char *how = ts(2); long f = ti(3); readcfg(g, 6, q);
        struct aa_dvec *st = aa_rx_ik_get_start(CX); double se[256]; size_t nse = aa_rx_ik_get_seed(CX)->len; memcpy(se, aa_rx_ik_get_seed(CX)->data, 8*nse); memcpy(q2, st->data, 8*nq);
        for (size_t i = 0; i < ns; i++) { aa_rx_config_id c = aa_rx_sg_sub_config(s, i); q2[c] = q[c]; }
        double T[12], E[16], A[12]; fkat(g, nq, q2, f, T); m2q(T, E); memcpy(E+4, T+9, 24); if (ti(5)) for (int i = 0; i < 4; i++) E[i] = -E[i];
        for (size_t i = 0; i < ns; i++) qs[i] = -77; struct aa_dmat Tm; aa_dmat_view(&Tm, 7, 1, E, 7); struct aa_dvec v; aa_dvec_view(&v, ns, qs, 1); int r;
        double q0[256]; memcpy(q0, st->data, 8*nq);
        aa_rx_ik_set_restart_time(CX, td(4)/1000);
        struct aa_mem_region *reg = aa_mem_region_local_get(); void *p0 = aa_mem_region_ptr(reg);
        if (!strcmp(how, "jac")) r = aa_rx_ik_jac_solve((struct aa_rx_ik_jac_cx*)CX, 1, E, 7, ns, qs); else if (!strcmp(how, "fun")) r = aa_rx_ik_jac_fun(CX, 1, E, 7, ns, qs); else r = aa_rx_ik_solve(CX, &Tm, &v);
        int bal = aa_mem_region_ptr(reg) == p0; aa_mem_region_pop(reg, p0);
        int kept = !memcmp(q0, st->data, 8*nq) && nse == aa_rx_ik_get_seed(CX)->len && !memcmp(se, aa_rx_ik_get_seed(CX)->data, 8*nse);
        memcpy(q2, st->data, 8*nq); for (size_t i = 0; i < ns; i++) q2[aa_rx_sg_sub_config(s, i)] = qs[i];
        double th = 9, x = 9; if (!r) { fkat(g, nq, q2, f, A); resid(A, T, &th, &x); }
        struct aa_dvec vq; aa_dvec_view(&vq, ns, qs, 1); int chk = r ? -1 : aa_rx_ik_check(CX, &Tm, &vq);
        jl("{\"op\":\"iksolve\",\"r\":%d,\"bal\":%d,\"kept\":%d,\"frame\":%ld,\"chk\":%d,\"thok\":%d,\"xok\":%d,\"target\":", r, bal, kept, f, chk, th <= TOLA*(1+1e-6)+1e-7, x <= TOLX*(1+1e-6)+1e-9); pose(T, 1);
        prs(6, nq, "q"); subq(s, q, qs + 64); jdarr("tobs", qs + 64, ns, 1e5, -1); jdarr("x", qs, r ? 0 : ns, 1e5, -1); state(); jl("}"); jflush(); }
    else if (!strcmp(op, "ikbad")) { /* ikbad g kind */
        const char *k = ts(2); double E[32] = {0,0,0,1, 0,0,0, 0,0,0,1}; for (size_t i = 0; i < 64; i++) qs[i] = -77; struct aa_dmat T; aa_dmat_view(&T, !strcmp(k, "rows") ? 6 : 7, !strcmp(k, "cols") ? 2 : 1, E, 7); struct aa_dvec v; aa_dvec_view(&v, !strcmp(k, "len") ? ns + 1 : ns, qs, 1);
        struct aa_mem_region *reg = aa_mem_region_local_get(); void *p0 = aa_mem_region_ptr(reg); int r = aa_rx_ik_solve(CX, &T, &v); int bal = aa_mem_region_ptr(reg) == p0; aa_mem_region_pop(reg, p0);
        int kept = 1; for (size_t i = 0; i < 64; i++) if (qs[i] != -77) kept = 0;
        jl("{\"op\":\"ikbad\",\"kind\":\"%s\",\"inv\":%d,\"bal\":%d,\"kept\":%d}", k, (r & AA_RX_INVALID_PARAMETER) != 0, bal, kept); jflush(); }
    else if (!strcmp(op, "ikobj")) { /* ikobj g frame q4 v3 vd (n d)* : every objective at the given configuration */
        if (ns == 0 || ns > 60) return; readcfg(g, 11, q); subq(s, q, qs);
        struct aa_rx_ik_parm *p = aa_rx_ik_parm_create(); aa_rx_ik_parm_set_obj(p, probe); struct aa_rx_ik_cx *cx = aa_rx_ik_cx_create(s, p); aa_rx_ik_set_start(cx, aa_rx_ik_get_start(CX)); aa_rx_ik_set_frame_id(cx, (aa_rx_frame_id)ti(2));
        struct aa_dvec v; aa_dvec_view(&v, ns, qs, 1); aa_rx_ik_set_seed(cx, &v); double E[8], o[256]; readqv(3, E, E+4); struct aa_dmat T; aa_dmat_view(&T, 7, 1, E, 7); aa_dvec_view(&v, ns, o, 1);
        PROBED = 0; ON = ns; aa_rx_ik_solve(cx, &T, &v);
        double C = cos(sqrt(fabs(OV[1] - OV[0])));
        jl("{\"op\":\"ikobj\",\"frame\":%ld,\"tq\":[%ld,%ld,%ld,%ld],\"tv\":[%ld,%ld,%ld],\"td\":%ld,\"probed\":%d", ti(2), ti(3), ti(4), ti(5), ti(6), ti(7), ti(8), ti(9), ti(10), PROBED); prs(11, nq, "q"); jdarr("obs", qs, ns, 1e5, -1); jdarr("at", PQ, PROBED ? ns : 0, 1e5, -1);
        if (!PROBED) { jl("}"); jflush(); }
        else { jl(",\"trans\":%ld,\"cos2\":%ld,\"jc\":%ld,\"fdv\":%d,\"nullv\":%d,\"grad\":[", q_rnd(OV[0], 1e4), q_rnd(C*C, 1e5), q_rnd(OV[3], 1e4), FDV, NULLV);
            for (int k = 0; k < 4; k++) { jl("%s[", k ? "," : ""); for (size_t i = 0; i < ns; i++) jl("%s%ld", i ? "," : "", q_rnd(OG[k][i], 1e4)); jl("]"); } jl("],\"fd\":[");
            for (int k = 0; k < 4; k++) { jl("%s[", k ? "," : ""); for (size_t i = 0; i < ns; i++) jl("%s%ld", i ? "," : "", q_rnd(FD[k][i], 1e4)); jl("]"); } jl("],\"fdg\":[");
            for (int k = 0; k < 3; k++) { jl("%s[", k ? "," : ""); for (size_t i = 0; i < ns; i++) jl("%s%ld", i ? "," : "", q_rnd(FG[k][i], 1e4)); jl("]"); } jl("]}"); jflush(); }
        aa_rx_ik_cx_destroy(cx); aa_rx_ik_parm_destroy(p); }
    else if (!strcmp(op, "ikrestart")) { /* ikrestart g : a one-joint chain whose first attempts run out of iterations */
        (void)nf; struct aa_rx_sg *h = aa_rx_sg_create(); double ax[3] = {1, 0, 0}; aa_rx_sg_add_frame_prismatic(h, "", "p", NULL, NULL, "p", ax, 0); aa_rx_sg_set_limit_pos(h, "p", -8, 8); aa_rx_sg_init(h);
        struct aa_rx_sg_sub *u = aa_rx_sg_chain_create(h, -1, 0); struct aa_rx_ik_parm *p = aa_rx_ik_parm_create(); aa_rx_ik_parm_set_algo(p, AA_RX_IK_JPINV); aa_rx_ik_parm_set_tol_dq(p, 1e-15); aa_rx_ik_parm_set_tol_trans(p, 1e-8); aa_rx_ik_parm_set_dt(p, .1);
        int first = 0, r = 0; double E[7] = {0,0,0,1, 3,0,0}; size_t it; struct aa_dmat T; aa_dmat_view(&T, 7, 1, E, 7); double x = 0; struct aa_dvec v; aa_dvec_view(&v, 1, &x, 1);
        struct aa_rx_ik_cx *cx = aa_rx_ik_cx_create(u, p); struct aa_dvec sv; double sd = -8; aa_dvec_view(&sv, 1, &sd, 1); aa_rx_ik_set_seed(cx, &sv);
        /* three quarters of the budget that suffices from the far seed fail from there, but suffice from near seeds */
        for (it = 20; it < 20000; it += it / 20) { aa_rx_ik_parm_set_max_iterations(p, it); if (!aa_rx_ik_solve(cx, &T, &v)) break; }
        aa_rx_ik_parm_set_max_iterations(p, it * 3 / 4); first = it > 20 && it < 20000 ? aa_rx_ik_solve(cx, &T, &v) != 0 : 2;
        aa_rx_ik_set_restart_time(cx, 8); r = aa_rx_ik_solve(cx, &T, &v);
        jl("{\"op\":\"ikrestart\",\"first\":%d,\"r\":%d,\"ok\":%d}", first, r, fabs(x - 3) < 1.01e-8); jflush();
        aa_rx_ik_cx_destroy(cx); aa_rx_ik_parm_destroy(p); aa_rx_sg_sub_destroy(u); aa_rx_sg_destroy(h); }
    else bad_script("op", op);
}
DRV_MAIN
