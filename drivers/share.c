/* Several threads work with one finished scene, each with its own contexts; the same work is done by one thread alone. */
#include "amino.h"
#include "drv.h"
#undef DRV_MAIN
#define DRV_MAIN
#define trace_cmd coll_cmd
static void coll_cmd(void);
#include "coll.c"
#undef trace_cmd
#undef DRV_MAIN
#include "amino/mat.h"
#include "amino/ct/state.h"
#include "amino/rx/scene_sub.h"
#include "amino/rx/scene_ik.h"
#include "amino/rx/scene_wk.h"
#include <pthread.h>
#define MAXT 8
#define MAXR 32
struct shared { struct aa_rx_sg_sub *sub; struct aa_rx_ik_parm *parm; struct aa_rx_wk_opts *wk; struct aa_rx_cl_set *set; aa_rx_frame_id tip; };
struct par { struct shared *s; unsigned long rng; int rounds, task; unsigned h[MAXR]; };
static pthread_barrier_t bar;
static unsigned rnd(struct par *p) { p->rng = p->rng*6364136223846793005ul + 1442695040888963407ul; return (unsigned)(p->rng >> 40); }
static void put(struct par *p, int r, const double *x, size_t n) { for (size_t i = 0; i < n; i++) { uint64_t b; memcpy(&b, x+i, 8); p->h[r] = (p->h[r] ^ (unsigned)(b ^ b >> 32))*16777619u; } }
static void visit(void *cx, aa_rx_frame_id f, struct aa_rx_geom *g) { double *a = cx; double o = aa_rx_geom_opt_get_scale(aa_rx_geom_get_opt(g)); a[0] = a[0]*3 + f + o; }
static void work(struct par *p, int r) {
    const struct shared *s = p->s; size_t n = aa_rx_sg_config_count(G), nf = aa_rx_sg_frame_count(G), ns = s->sub ? aa_rx_sg_sub_config_count(s->sub) : 0; double q[64], E[7*64], R[7*64], x[64], z[64];
    for (size_t i = 0; i < n; i++) q[i] = (double)(rnd(p) % 2001)/500 - 2;
    int t = p->task >= 0 ? p->task : (int)(rnd(p) % 10); struct aa_dvec qv = AA_DVEC_INIT(n, q, 1); struct aa_rx_fk *fk = aa_rx_fk_malloc(G); aa_rx_fk_all(fk, &qv); struct aa_mem_region *reg = aa_mem_region_local_get(); void *top = aa_mem_region_ptr(reg);
    if (t == 0) for (size_t i = 0; i < nf; i++) { aa_rx_fk_get_abs_qutr(fk, (aa_rx_frame_id)i, E); put(p, r, E, 7); aa_rx_fk_get_rel_qutr(fk, (aa_rx_frame_id)(nf-1), (aa_rx_frame_id)i, E); put(p, r, E, 7); }
    else if (t == 1) { aa_rx_sg_tf(G, n, q, nf, R, 7, E, 7); put(p, r, E, 7*nf); put(p, r, R, 7*nf); double *q2 = aa_mem_region_dup(reg, q, 8*(n+1)); if (n) q2[rnd(p)%n] += .5; double R2[7*64], E2[7*64]; aa_rx_sg_tf_update(G, n, q, q2, nf, R, 7, E, 7, R2, 7, E2, 7); put(p, r, E2, 7*nf); }
    else if (t == 2 && ns) { double J[6*64]; struct aa_dmat m; aa_dmat_view(&m, 6, ns, J, 6); aa_rx_sg_sub_jac_vel_fill(s->sub, fk, &m); put(p, r, J, 6*ns); aa_rx_sg_sub_jac_twist_fill(s->sub, fk, &m); put(p, r, J, 6*ns); ({ struct aa_dvec xx = AA_DVEC_INIT(ns, x, 1); aa_rx_sg_sub_config_gather(s->sub, &qv, &xx); }); put(p, r, x, ns); aa_rx_sg_sub_center_configs(s->sub, ns, x); put(p, r, x, ns); }
    else if (t == 3) { aa_rx_frame_id f = (aa_rx_frame_id)(rnd(p) % nf); struct aa_rx_sg_sub *u = aa_rx_sg_chain_create(G, AA_RX_FRAME_ROOT, f); size_t k = aa_rx_sg_sub_config_count(u); for (size_t i = 0; i < k; i++) { double d = aa_rx_sg_sub_config(u, i); put(p, r, &d, 1); } if (k) { struct aa_dmat *J = aa_rx_sg_sub_jac_vel_get(u, reg, fk); put(p, r, J->data, 6*k); } aa_rx_sg_sub_destroy(u); }
    else if (t == 4 && ns) { struct aa_rx_ik_cx *cx = aa_rx_ik_cx_create(s->sub, s->parm); aa_rx_ik_set_start(cx, &qv); for (size_t i = 0; i < ns; i++) x[i] = (double)(rnd(p) % 2001)/500 - 2; struct aa_dvec xv = AA_DVEC_INIT(ns, x, 1), zv = AA_DVEC_INIT(ns, z, 1); aa_rx_ik_set_seed(cx, &xv); aa_rx_ik_set_restart_time(cx, 0);
        for (size_t i = 0; i < n; i++) q[i] += (double)(rnd(p) % 100)/200; aa_rx_fk_all(fk, &qv); aa_rx_fk_get_abs_qutr(fk, s->tip, E); struct aa_dmat T; aa_dmat_view(&T, 7, 1, E, 7); for (size_t i = 0; i < ns; i++) z[i] = 0; double k = aa_rx_ik_solve(cx, &T, &zv); put(p, r, &k, 1); if (!k) put(p, r, z, ns); aa_rx_ik_cx_destroy(cx); }
    else if (t == 5) { struct aa_rx_cl *cl = aa_rx_cl_create(G); struct aa_rx_cl_set *cs = aa_rx_cl_set_create(G); aa_rx_cl_set_fill(cs, s->set); aa_rx_cl_allow_set(cl, s->set); aa_rx_cl_check_fk(cl, fk, cs); struct aa_rx_cl_dist *d = aa_rx_cl_dist_create(cl); aa_rx_cl_dist_check(d, fk);   /* FCL's verdicts on touching pairs depend on addresses: not compared */
        for (size_t i = 0; i < nf; i++) { double v = aa_rx_cl_set_get(s->set, 0, (aa_rx_frame_id)i); put(p, r, &v, 1); } aa_rx_cl_dist_destroy(d); aa_rx_cl_set_destroy(cs); aa_rx_cl_destroy(cl); }
    else if (t == 6) { struct aa_rx_sg *h = aa_rx_sg_copy(G); double o[3] = {1, 2, 3}, id[4] = {0, 0, 0, 1}; aa_rx_sg_add_frame_fixed(h, "", "extra", id, o); aa_rx_sg_init(h); double k = (double)aa_rx_sg_frame_count(h); put(p, r, &k, 1); aa_rx_sg_map_geom(h, visit, &k); put(p, r, &k, 1); size_t m = aa_rx_sg_frame_count(h); double *A = aa_mem_region_alloc(reg, 8*14*m); aa_rx_sg_tf(h, n, q, m, A, 14, A+7, 14); put(p, r, A, 14*m); aa_rx_sg_destroy(h); }
    else if (t == 7) { double a = 0; aa_rx_sg_map_geom(G, visit, &a); put(p, r, &a, 1); for (size_t i = 0; i < nf; i++) { const char *m = aa_rx_sg_frame_name(G, (aa_rx_frame_id)i); double k[2] = {aa_rx_sg_frame_id(G, m), aa_rx_sg_frame_parent(G, (aa_rx_frame_id)i)}; put(p, r, k, 2); }
        for (size_t i = 0; i < n; i++) { double lo = -1, hi = -1; int c = aa_rx_sg_get_limit_pos(G, (aa_rx_config_id)i, &lo, &hi); double k[2] = {aa_rx_sg_config_id(G, aa_rx_sg_config_name(G, (aa_rx_config_id)i)), c}; put(p, r, k, 2); if (!c) { put(p, r, &lo, 1); put(p, r, &hi, 1); } } aa_rx_sg_center_configs(G, n, x); put(p, r, x, n); }
    else if (t == 8 && ns) { double dx[6]; for (int i = 0; i < 6; i++) dx[i] = (double)(rnd(p) % 2001)/500 - 2; struct aa_dvec d = AA_DVEC_INIT(6, dx, 1), zv = AA_DVEC_INIT(ns, z, 1); aa_rx_wk_dx2dq(s->sub, s->wk, fk, &d, &zv); put(p, r, z, ns); for (size_t i = 0; i < ns; i++) x[i] = (double)(rnd(p) % 2001)/500 - 2; struct aa_dvec xv = AA_DVEC_INIT(ns, x, 1); aa_rx_wk_dx2dq_np(s->sub, s->wk, fk, &d, &xv, &zv); put(p, r, z, ns); }
    else if (t == 9 && ns) { struct aa_rx_wk_lc3_cx *L = aa_rx_wk_lc3_create(s->sub, s->wk); double dx[6] = {0, 0, 0, 0, 0, 0}, da[64], dr[64]; dx[rnd(p) % 6] = 1; ({ struct aa_dvec xx = AA_DVEC_INIT(ns, x, 1); aa_rx_sg_sub_config_gather(s->sub, &qv, &xx); }); for (size_t i = 0; i < ns; i++) da[i] = dr[i] = 0; struct aa_dvec d = AA_DVEC_INIT(6, dx, 1), qa = AA_DVEC_INIT(ns, x, 1), a = AA_DVEC_INIT(ns, da, 1), b = AA_DVEC_INIT(ns, dr, 1), zv = AA_DVEC_INIT(ns, z, 1);
        double k = aa_rx_wk_dx2dq_lc3(L, .1, fk, &d, &qa, &a, &b, &zv); put(p, r, &k, 1); if (!k) put(p, r, z, ns); aa_rx_wk_lc3_destroy(L); }
    aa_mem_region_pop(reg, top); aa_rx_fk_destroy(fk);
}
static void all(struct par *p) { for (int r = 0; r < p->rounds; r++) { p->h[r] = 0; work(p, r); } aa_mem_region_local_destroy(); }
static void *main_(void *a) { pthread_barrier_wait(&bar); all(a); return NULL; }
static void trace_cmd(void) {
    if (strcmp(TOK[0], "par")) { FILE *l = LOGF; LOGF = fopen("/dev/null", "w"); if (!LOGF) exit(3); if (!setjmp(DRV_JMP)) coll_cmd(); fclose(LOGF); LOGF = l; return; }
    /* par threads rounds task seed tip */
    int n = (int)ti(1), k = (int)ti(2); if (n > MAXT || k > MAXR || !aa_rx_sg_frame_count(G)) bad_script("par", "");
    struct shared S; S.tip = fid(ts(5)); S.sub = aa_rx_sg_chain_create(G, AA_RX_FRAME_ROOT, S.tip); S.parm = aa_rx_ik_parm_create(); aa_rx_ik_parm_set_algo(S.parm, AA_RX_IK_JPINV); aa_rx_ik_parm_set_max_iterations(S.parm, 60);
    S.wk = aa_rx_wk_opts_create(); S.set = aa_rx_cl_set_create(G); aa_rx_sg_cl_set_copy(G, S.set);
    if (aa_rx_sg_sub_config_count(S.sub) == 0) { aa_rx_sg_sub_destroy(S.sub); S.sub = NULL; }
    struct par P[MAXT], Q[MAXT]; pthread_t t[MAXT];
    for (int i = 0; i < n; i++) { memset(&P[i], 0, sizeof P[i]); P[i].s = &S; P[i].rounds = k; P[i].task = (int)ti(3); P[i].rng = (unsigned long)ti(4)*77 + (unsigned long)i; Q[i] = P[i]; }
    pthread_barrier_init(&bar, NULL, (unsigned)n);
    for (int i = 0; i < n; i++) pthread_create(&t[i], NULL, main_, &P[i]);
    for (int i = 0; i < n; i++) pthread_join(t[i], NULL);
    pthread_barrier_destroy(&bar);
    for (int i = 0; i < n; i++) { all(&Q[i]); for (int r = 0; r < k; r++) { jl("{\"op\":\"call\",\"obs\":[\"%08x\",\"%08x\"]}", P[i].h[r], Q[i].h[r]); jflush(); } }
    aa_rx_cl_set_destroy(S.set); aa_rx_wk_opts_destroy(S.wk); aa_rx_ik_parm_destroy(S.parm); if (S.sub) aa_rx_sg_sub_destroy(S.sub);
}
#define DRV_MAIN int main(int argc, char **argv) { return drv_main(argc, argv); }
DRV_MAIN
