/* Options of the kinematic solver, single Jacobian steps, limits and paths that follow workspace trajectories. */
#define SCENE_NO_MAIN
#include "drv.h"
#define trace_begin scene_begin
#define trace_cmd scene_cmd
#define trace_end scene_end
#include "scene.c"
#undef trace_begin
#undef trace_cmd
#undef trace_end
#include "amino/rx/rx_ct.h"
#include "amino/ct/state.h"
#include "amino/ct/traj.h"
static struct aa_rx_ik_parm *PM; static double *ARR[3]; static int HOW[3]; static size_t NA[3];   /* the caller's arrays: 0 none, 1 its own, 2 given away */
static const char *KIND[3] = {"ref", "gain", "seed"};
static int which(const char *k) { for (int i = 0; i < 3; i++) if (!strcmp(k, KIND[i])) return i; bad_script("kind", k); return 0; }
static void clr(void) { if (PM) aa_rx_ik_parm_destroy(PM); PM = NULL; for (int i = 0; i < 3; i++) { if (HOW[i] == 1) free(ARR[i]); HOW[i] = 0; } }
static void trace_begin(void) { PM = NULL; memset(HOW, 0, sizeof HOW); scene_begin(); }
static void trace_end(void) { clr(); scene_end(); }
static struct aa_rx_sg_sub *sb(int t) { long k = ti(t); if (k < 1 || k > NS) bad_script("sub", TOK[0]); return S[k-1]; }
static void toks(const char *k, int i, size_t n) { jl(",\"%s\":[", k); for (size_t j = 0; j < n; j++) jl("%s%ld", j ? "," : "", ti(i + (int)j)); jl("]"); }
static void take(int w, size_t n, double *v, enum aa_mem_refop op) {
    if (w == 0) aa_rx_ik_parm_take_config(PM, n, v, op); else if (w == 1) aa_rx_ik_parm_take_gain_config(PM, n, v, op); else aa_rx_ik_parm_take_seed(PM, n, v, op);
}
static void drop(int w) { if (HOW[w] == 1) free(ARR[w]); HOW[w] = 0; }
static void ext(double x) { if (isinf(x)) jl("[%d,0]", x > 0 ? 1 : -1); else jl("[0,%ld]", q_rnd(x, 1e4)); }
static void lims(const char *k, const double *a, const double *b, size_t n) { jl(",\"%s\":[", k); for (size_t i = 0; i < n; i++) { jl("%s[", i ? "," : ""); ext(a[i]); jl(","); ext(b[i]); jl("]"); } jl("]"); }
static void trace_cmd(void) {
    const char *op = TOK[0];
    if (strncmp(op, "kp", 2)) { scene_cmd(); return; }
    struct aa_mem_region *loc = aa_mem_region_local_get(); void *p0 = aa_mem_region_ptr(loc);
    if (!strcmp(op, "kpnew")) { clr(); PM = aa_rx_ik_parm_create(); jl("{\"op\":\"kpnew\",\"frame\":%d}", 0); jflush(); return; }
    if (!strcmp(op, "kpdel")) { clr(); jl("{\"op\":\"kpdel\"}"); jflush(); return; }
    if (!strcmp(op, "kptake")) { /* kptake kind how n v*n : quarters */
        int w = which(ts(1)); const char *how = ts(2); size_t n = (size_t)ti(3); double *a = malloc(8*(n+1)); for (size_t i = 0; i < n; i++) a[i] = td(4+(int)i)/4;
        double *old = HOW[w] == 1 ? ARR[w] : NULL;
        take(w, n, a, !strcmp(how, "copy") ? AA_MEM_COPY : !strcmp(how, "steal") ? AA_MEM_STEAL : AA_MEM_BORROW);
        free(old); ARR[w] = a; NA[w] = n; HOW[w] = !strcmp(how, "steal") ? 2 : 1;
        jl("{\"op\":\"kptake\",\"kind\":\"%s\",\"how\":\"%s\"", ts(1), how); toks("v", 4, n); jl("}"); jflush(); }
    else if (!strcmp(op, "kppoke")) { /* kppoke kind v*n : the caller writes to the array it passed last */
        int w = which(ts(1)); int did = HOW[w] == 1; if (did) for (size_t i = 0; i < NA[w]; i++) ARR[w][i] = td(2+(int)i)/4;
        jl("{\"op\":\"kppoke\",\"kind\":\"%s\",\"did\":%d", ts(1), did); toks("v", 2, did ? NA[w] : 0); jl("}"); jflush(); }
    else if (!strcmp(op, "kpcenter")) { /* kpcenter g k gn gd */
        aa_rx_ik_parm_center_configs(PM, sb(2), td(3)/td(4)); drop(0); drop(1);
        jl("{\"op\":\"kpcenter\",\"g\":%ld,\"k\":%ld,\"gain\":[%ld,%ld]}", ti(1), ti(2), ti(3), ti(4)); jflush(); }
    else if (!strcmp(op, "kpseed")) { aa_rx_ik_parm_center_seed(PM, sb(2)); drop(2); jl("{\"op\":\"kpseed\",\"g\":%ld,\"k\":%ld}", ti(1), ti(2)); jflush(); }
    else if (!strcmp(op, "kpstep")) { /* kpstep n neg null ga2 gt2 q4 axis k va3 vr3 vd dx6 nz q*n(halves) J*6n z*nz*n */
        size_t n = (size_t)ti(1), nz = (size_t)ti(25); long neg = ti(2); double qa[4], qk[4] = {0, 0, 0, 1}, A[7], R[7], dx[6], *q = malloc(8*n), *J = malloc(48*n), *dq = malloc(8*(n+1));
        long iq[4]; for (int i = 0; i < 4; i++) iq[i] = ti(6+i); su_iq(iq, qa); long ax = ti(10), k = ti(11); qk[ax] = sin(M_PI/4*(double)k); qk[3] = cos(M_PI/4*(double)k);
        memcpy(A, qa, 32); const double *a = qk, *b = qa; R[0] = a[3]*b[0]+a[0]*b[3]+a[1]*b[2]-a[2]*b[1]; R[1] = a[3]*b[1]+a[1]*b[3]+a[2]*b[0]-a[0]*b[2]; R[2] = a[3]*b[2]+a[2]*b[3]+a[0]*b[1]-a[1]*b[0]; R[3] = a[3]*b[3]-a[0]*b[0]-a[1]*b[1]-a[2]*b[2];
        for (int i = 0; i < 4; i++) { if (neg & 1) A[i] = -A[i]; if (neg & 2) R[i] = -R[i]; }
        for (int i = 0; i < 3; i++) { A[4+i] = td(12+i)/td(18); R[4+i] = td(15+i)/td(18); }
        for (int i = 0; i < 6; i++) dx[i] = td(19+i);
        for (size_t i = 0; i < n; i++) q[i] = td(26+(int)i)/2;
        for (size_t i = 0; i < 6*n; i++) J[i] = td(26+(int)(n+i));
        aa_rx_ik_parm_set_gain_angle(PM, td(4)/2); aa_rx_ik_parm_set_gain_trans(PM, td(5)/2); aa_rx_ik_parm_set_s2min(PM, 1e-6);
        dq[n] = -77; int rc = aa_rx_ik_jac_x2dq(PM, n, q, A, R, ti(3) ? NULL : dx, J, dq);
        int bal = aa_mem_region_ptr(loc) == p0;
        jl("{\"op\":\"kpstep\",\"rc\":%d,\"bal\":%d,\"pad\":%d,\"null\":%ld,\"ga\":%ld,\"gt\":%ld,\"ax\":%ld,\"k\":%ld,\"vd\":%ld", rc, bal, dq[n] == -77, ti(3), ti(4), ti(5), ax + 1, k, ti(18));
        toks("va", 12, 3); toks("vr", 15, 3); toks("dx", 19, 6); toks("q", 26, n); jl(",\"J\":["); for (size_t i = 0; i < n; i++) { jl("%s[", i ? "," : ""); for (size_t r = 0; r < 6; r++) jl("%s%ld", r ? "," : "", ti(26+(int)(n+6*i+r))); jl("]"); } jl("],\"z\":[");
        for (size_t i = 0; i < nz; i++) { jl("%s[", i ? "," : ""); for (size_t r = 0; r < n; r++) jl("%s%ld", r ? "," : "", ti(26+(int)(7*n+n*i+r))); jl("]"); } jl("]");
        jdarr("dq", dq, n, 1e3, -1); jl("}"); jflush(); free(q); free(J); free(dq); }
    else if (!strcmp(op, "kplim")) { /* kplim g api own */
        struct aa_rx_sg *g = g_(1); size_t n = aa_rx_sg_config_count(g); struct aa_mem_region *r = ti(3) ? aa_mem_region_create(ti(3) > 1 ? 64 : 4096) : loc;
        struct aa_ct_limit *l = !strcmp(ts(2), "sg") ? aa_rx_ct_sg_limits(r, g) : aa_rx_ct_limits(r, g);
        jl("{\"op\":\"kplim\",\"g\":%ld,\"n\":[%zu,%zu]", ti(1), l->min->n_q, l->max->n_q); lims("pos", l->min->q, l->max->q, n); lims("vel", l->min->dq, l->max->dq, n); lims("acc", l->min->ddq, l->max->ddq, n); lims("eff", l->min->eff, l->max->eff, n); jl("}"); jflush();
        if (r == loc) aa_mem_region_pop(loc, p0 ? p0 : (void*)l); else aa_mem_region_destroy(r); }
    else if (!strcmp(op, "kppts")) { /* kppts nq np v* */
        size_t nq = (size_t)ti(1), np = (size_t)ti(2); double *v = malloc(8*(nq*np+1)); for (size_t i = 0; i < nq*np; i++) v[i] = td(3+(int)i);
        struct aa_mem_region *r = aa_mem_region_create(64); struct aa_ct_pt_list *l = aa_rx_ct_pt_list(r, nq, np, v);
        const struct aa_ct_state *a = aa_ct_pt_list_start_state(l), *b = aa_ct_pt_list_final_state(l);
        jl("{\"op\":\"kppts\",\"nq\":%zu,\"np\":%zu,\"size\":%zu,\"cnt\":[%zu,%zu]", nq, np, aa_ct_pt_list_size(l), a->n_q, b->n_q); toks("v", 3, nq*np); jdarr("a", a->q, nq, 1, 1e-9); jdarr("b", b->q, nq, 1, 1e-9); jl("}"); jflush(); aa_ct_pt_list_destroy(l); aa_mem_region_destroy(r); free(v); }
    else if (!strcmp(op, "kpath")) { /* kpath own D gt2 perm s3 b3 q03 off3 del3 w0 wk lim lo3 hi3 frame : halves */
        static const int PERM[6][3] = {{0,1,2},{0,2,1},{1,0,2},{1,2,0},{2,0,1},{2,1,0}}; const int *pm = PERM[ti(4)];
        struct aa_rx_sg *h = aa_rx_sg_create(); double z[3] = {0, 0, 0}, id[4] = {0, 0, 0, 1}; const char *par = "base", *nmv[3] = {"px", "py", "pz"};
        double b[3]; for (int i = 0; i < 3; i++) b[i] = td(8+i)/2; double zx[3] = {0, 0, 1};
        aa_rx_sg_add_frame_prismatic(h, "", "aux0", id, z, "aux0", zx, 0); aa_rx_sg_add_frame_fixed(h, "", "base", id, b);
        for (int i = 0; i < 3; i++) { int c = pm[i]; double ax[3] = {0, 0, 0}; ax[c] = td(5+c); aa_rx_sg_add_frame_prismatic(h, par, nmv[c], id, z, nmv[c], ax, 0); if (ti(22)) aa_rx_sg_set_limit_pos(h, nmv[c], td(23+c)/2, td(26+c)/2); par = nmv[c]; }
        aa_rx_sg_add_frame_revolute(h, par, "wrist", id, z, "wrist", zx, 0); aa_rx_sg_add_frame_fixed(h, "wrist", "tool", id, z); aa_rx_sg_add_frame_prismatic(h, "", "zaux", id, z, "zaux", zx, 0); aa_rx_sg_set_limit_pos(h, "zaux", 0, .001);
        aa_rx_sg_init(h); struct aa_rx_sg_sub *u = aa_rx_sg_chain_create(h, -1, aa_rx_sg_frame_id(h, "tool")); size_t na = aa_rx_sg_config_count(h), ns = aa_rx_sg_sub_config_count(u);
        double q[8], w0 = M_PI/2*td(20), wk = M_PI/2*td(21); for (size_t i = 0; i < na; i++) q[i] = 5; for (int c = 0; c < 3; c++) q[aa_rx_sg_config_id(h, nmv[c])] = td(11+c)/2*td(5+c); q[aa_rx_sg_config_id(h, "wrist")] = w0;
        double E0[7] = {0, 0, sin(w0/2), cos(w0/2)}, E1[7] = {0, 0, sin((w0+wk)/2), cos((w0+wk)/2)}; for (int c = 0; c < 3; c++) { E0[4+c] = b[c] + td(11+c)/2 + td(14+c)/2; E1[4+c] = E0[4+c] + td(17+c)/2; }
        struct aa_rx_ik_parm *p = aa_rx_ik_parm_create(); aa_rx_ik_parm_set_dt(p, 1/td(2)); aa_rx_ik_parm_set_gain_trans(p, td(3)/2); aa_rx_ik_parm_set_gain_angle(p, td(3)/2); aa_rx_ik_parm_set_s2min(p, 1e-6); if (ti(29)) aa_rx_ik_parm_set_frame(p, aa_rx_sg_frame_id(h, "wrist"));
        struct aa_mem_region *pr = aa_mem_region_create(256), *r = ti(1) ? aa_mem_region_create(128) : loc;
        struct aa_ct_pt_list *l = aa_ct_pt_list_create(pr); aa_ct_pt_list_add_qutr(l, E0); aa_ct_pt_list_add_qutr(l, E1); struct aa_ct_seg_list *sl = aa_ct_tjx_slerp_generate(pr, l);
        size_t np = 0; double *path = NULL; void *mine = aa_mem_region_alloc(loc, 24); memset(mine, 3, 24); void *top = aa_mem_region_ptr(loc); int rc = aa_rx_ct_tjx_path(r, p, u, sl, na, q, &np, &path);
        int bal = r == loc || aa_mem_region_ptr(loc) == top; for (int i = 0; i < 200; i++) { void *t = aa_mem_region_alloc(loc, 512); memset(t, 0x7f, 512); }   /* what comes later does not touch the path */
        int ok = 1; for (int i = 0; i < 24; i++) if (((char*)mine)[i] != 3) ok = 0;
        jl("{\"op\":\"kpath\",\"rc\":%d,\"bal\":%d,\"kept\":%d,\"ns\":%zu,\"D\":%ld,\"gt\":%ld,\"w0\":%ld,\"wk\":%ld,\"lim\":%ld", rc, bal, ok, ns, ti(2), ti(3), ti(20), ti(21), ti(22)); toks("s", 5, 3); toks("q0", 11, 3); toks("off", 14, 3); toks("del", 17, 3); toks("lo", 23, 3); toks("hi", 26, 3); jl(",\"p\":[");
        size_t col[4]; for (size_t i = 0; i < ns && i < 4; i++) { aa_rx_config_id c = aa_rx_sg_sub_config(u, i); for (int k = 0; k < 4; k++) if (aa_rx_sg_config_id(h, k < 3 ? nmv[k] : "wrist") == c) col[k] = i; }
        for (size_t i = 0; i < np && ns == 4 && path; i++) { jl("%s[", i ? "," : ""); for (int k = 0; k < 4; k++) jl("%s%ld", k ? "," : "", q_rnd(path[i*ns + col[k]] * (k < 3 ? td(5+k) : 1), 1e4)); jl("]"); } jl("]}"); jflush();
        aa_ct_seg_list_destroy(sl); aa_ct_pt_list_destroy(l); aa_mem_region_pop(loc, mine); if (r != loc) aa_mem_region_destroy(r); aa_mem_region_destroy(pr); aa_rx_ik_parm_destroy(p); aa_rx_sg_sub_destroy(u); aa_rx_sg_destroy(h); }
    else bad_script("op", op);
}
DRV_MAIN
