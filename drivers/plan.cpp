/* Motion planning for a gantry among boxes, whose exact free space the specification knows; sequences of plans. */
#include "amino.h"
#include "amino/rx/rxtype.h"
#include "amino/rx/rxerr.h"
#include "amino/rx/scenegraph.h"
#include "amino/rx/scene_sub.h"
#include "amino/rx/scene_geom.h"
#include "amino/rx/scene_collision.h"
#include "amino/rx/scene_planning.h"
#include "amino/rx/mp_seq.h"
#include <ompl/util/RandomNumbers.h>
#include <ompl/util/Console.h>
#include "drv.h"
static struct aa_rx_sg *G; static struct aa_rx_sg_sub *S; static struct aa_rx_mp *M; static struct aa_rx_mp_seq *Q; static int NO;
static void drop(void) { if (M) aa_rx_mp_destroy(M); M = NULL; if (S) aa_rx_sg_sub_destroy(S); S = NULL; if (G) aa_rx_sg_destroy(G); G = NULL; if (Q) aa_rx_mp_seq_destroy(Q); Q = NULL; }
static void trace_begin(void) { static int once = 0; if (!once) { ompl::msg::noOutputHandler(); ompl::RNG::setSeed(1); once = 1; } drop(); NO = 0; }
static void trace_end(void) { drop(); }
static const double Q0[4] = {0,0,0,1};
static void box(const char *f, double hx, double hy) { double d[3] = {2*hx, 2*hy, 4}; struct aa_rx_geom_opt *o = aa_rx_geom_opt_create(); aa_rx_geom_opt_set_collision(o, 1); aa_rx_geom_attach(G, f, aa_rx_geom_box(o, d)); aa_rx_geom_opt_destroy(o); }
static aa_rx_config_id cid(const char *n) { aa_rx_config_id i = aa_rx_sg_config_id(G, n); if (i < 0 || i > 3) mismatch("configuration"); return i; }
static aa_rx_frame_id fid(const char *n) { aa_rx_frame_id i = aa_rx_sg_frame_id(G, n); if (i < 0) mismatch("frame"); return i; }
static void all(int i, double q[4]) { q[cid("x")] = td(i); q[cid("y")] = td(i+1); q[cid("d")] = td(i+2); q[cid("z")] = 0; }
static void logset(const char *k, const struct aa_rx_cl_set *s) { int first = 1; size_t n = aa_rx_sg_frame_count(G); jl(",\"%s\":[", k); if (s) for (size_t i = 0; i < n; i++) for (size_t j = 0; j < i; j++) if (aa_rx_cl_set_get(s, (aa_rx_frame_id)i, (aa_rx_frame_id)j)) { jl("%s[\"%s\",\"%s\"]", first ? "" : ",", aa_rx_sg_frame_name(G, (aa_rx_frame_id)i), aa_rx_sg_frame_name(G, (aa_rx_frame_id)j)); first = 0; } jl("]"); }
static void trace_cmd(void) {
    const char *op = ts(0);
    if (!strcmp(op, "world")) { /* world order xlo xhi ylo yhi rhx2 rhy2  door(cx2 cy2 hx2 hy2)  n (cx2 cy2 hx2 hy2)* : half units */
        drop(); G = aa_rx_sg_create(); double ax[3] = {1,0,0}, ay[3] = {0,1,0}, az[3] = {0,0,1}, v0[3] = {0,0,0}; long ord = ti(1) % 3; int mount = ti(1) > 2; int n = (int)ti(12);
        for (int p = 0; p < 3; p++) { int w = (int)((p + ord) % 3);
            if (w == 0) { aa_rx_sg_add_frame_prismatic(G, mount ? "d" : "", "x", Q0, v0, "x", ax, 0); aa_rx_sg_add_frame_prismatic(G, "x", "z", Q0, v0, "z", az, 0); aa_rx_sg_add_frame_prismatic(G, "z", "y", Q0, v0, "y", ay, 0); }
            else if (w == 1) { double v[3] = {td(8)/2, td(9)/2, 0}; aa_rx_sg_add_frame_prismatic(G, "", "d", Q0, v, "d", ay, 0); }
            else for (int i = 0; i < n; i++) { char f[8]; snprintf(f, sizeof f, "o%d", i+1); double v[3] = {td(13+4*i)/2, td(14+4*i)/2, 0}; aa_rx_sg_add_frame_fixed(G, "", f, Q0, v); } }
        aa_rx_sg_init(G); aa_rx_sg_set_limit_pos(G, "x", td(2), td(3)); aa_rx_sg_set_limit_pos(G, "y", td(4), td(5)); aa_rx_sg_set_limit_pos(G, "z", 0, 1); aa_rx_sg_set_limit_pos(G, "d", -30, 30);
        box("y", td(6)/2, td(7)/2); box("d", td(10)/2, td(11)/2); for (int i = 0; i < n; i++) { char f[8]; snprintf(f, sizeof f, "o%d", i+1); box(f, td(15+4*i)/2, td(16+4*i)/2); }
        { int k = 13+4*n; for (; k < NTOK; k += 2) aa_rx_sg_allow_collision(G, fid(ts(k)), fid(ts(k+1)), 1); } aa_rx_sg_init(G); aa_rx_sg_cl_init(G); S = aa_rx_sg_chain_create(G, mount ? fid("d") : AA_RX_FRAME_ROOT, fid("y"));
        if (aa_rx_sg_sub_config_count(S) != 3 || aa_rx_sg_config_count(G) != 4) mismatch("sub");
        M = aa_rx_mp_create(S);
        jl("{\"op\":\"world\",\"mount\":%d,\"xlo\":%ld,\"xhi\":%ld,\"ylo\":%ld,\"yhi\":%ld,\"rx\":%ld,\"ry\":%ld,\"door\":[%ld,%ld,%ld,%ld],\"obs\":[", mount, ti(2), ti(3), ti(4), ti(5), ti(6), ti(7), ti(8), ti(9), ti(10), ti(11));
        for (int i = 0; i < n; i++) jl("%s[%ld,%ld,%ld,%ld]", i ? "," : "", ti(13+4*i), ti(14+4*i), ti(15+4*i), ti(16+4*i)); jl("],\"sg\":["); for (int k = 13+4*n; k < NTOK; k += 2) jl("%s[\"%s\",\"%s\"]", k > 13+4*n ? "," : "", ts(k), ts(k+1)); jl("]"); logset("allowed", aa_rx_mp_get_allowed(M)); jl("}"); jflush();
    } else if (!strcmp(op, "allowset")) { aa_rx_cl_set_set(aa_rx_mp_get_allowed(M), fid(ts(1)), fid(ts(2)), (int)ti(3)); jl("{\"op\":\"allow\",\"a\":\"%s\",\"b\":\"%s\",\"v\":%ld", ts(1), ts(2), ti(3)); logset("allowed", aa_rx_mp_get_allowed(M)); jl("}"); jflush();
    } else if (!strcmp(op, "start") || !strcmp(op, "allowcfg")) { double q[4]; all(1, q); if (op[0] == 's') aa_rx_mp_set_start(M, 4, q); else aa_rx_mp_allow_config(M, 4, q);
        jl("{\"op\":\"%s\",\"c\":[%ld,%ld,%ld]", op, ti(1), ti(2), ti(3)); logset("allowed", aa_rx_mp_get_allowed(M)); jl("}"); jflush();
    } else if (!strcmp(op, "allow")) { aa_rx_mp_allow_collision(M, fid(ts(1)), fid(ts(2)), (int)ti(3)); jl("{\"op\":\"allow\",\"a\":\"%s\",\"b\":\"%s\",\"v\":%ld", ts(1), ts(2), ti(3)); logset("allowed", aa_rx_mp_get_allowed(M)); jl("}"); jflush();
    } else if (!strcmp(op, "goal")) { double q[3]; aa_rx_config_id x = cid("x"), y = cid("y"); for (size_t i = 0; i < 3; i++) q[i] = aa_rx_sg_sub_config(S, i) == x ? td(1) : aa_rx_sg_sub_config(S, i) == y ? td(2) : 0;
        int r = aa_rx_mp_set_goal(M, 3, q); jl("{\"op\":\"goal\",\"x\":%ld,\"y\":%ld,\"r\":%d}", ti(1), ti(2), r); jflush();
    } else if (!strcmp(op, "wsgoal")) { /* wsgoal named x y : absolute, half units */ double E[7] = {0,0,0,1,td(2)/2,td(3)/2,0}; aa_rx_frame_id f = fid("y"); int r = aa_rx_mp_set_wsgoal(M, 1, ti(1) ? &f : NULL, E, 7); jl("{\"op\":\"wsgoal\",\"x\":%ld,\"y\":%ld,\"r\":%d}", ti(2), ti(3), r); jflush();
    } else if (!strcmp(op, "planner")) { const char *p = ts(1);
        if (!strcmp(p, "rrtc")) aa_rx_mp_set_rrt(M, NULL); else if (!strcmp(p, "rrt")) { struct aa_rx_mp_rrt_attr *a = aa_rx_mp_rrt_attr_create(); aa_rx_mp_rrt_attr_set_bidirectional(a, 0); aa_rx_mp_set_rrt(M, a); aa_rx_mp_rrt_attr_destroy(a); }
        else if (!strcmp(p, "sbl")) { struct aa_rx_mp_sbl_attr *a = aa_rx_mp_sbl_attr_create(); aa_rx_mp_set_sbl(M, a); aa_rx_mp_sbl_attr_destroy(a); } else if (!strcmp(p, "kpiece")) aa_rx_mp_set_kpiece(M, NULL); else bad_script("planner", p);
        jl("{\"op\":\"planner\",\"p\":\"%s\"}", p); jflush();
    } else if (!strcmp(op, "simplify")) { aa_rx_mp_set_simplify(M, (int)ti(1)); jl("{\"op\":\"simplify\",\"v\":%ld}", ti(1)); jflush();
    } else if (!strcmp(op, "track")) { aa_rx_mp_set_track_collisions(M, (int)ti(1)); jl("{\"op\":\"track\",\"v\":%ld,\"none\":%d}", ti(1), aa_rx_mp_get_collisions(M) == NULL); jflush();
    } else if (!strcmp(op, "plan")) { size_t n = 77; double *p = (double*)1; static int slow = 0; long ms = slow > 2 && ti(1) > 1000 ? 100 : ti(1); int r = aa_rx_mp_plan(M, (double)ms/1000, &n, &p); if (ms > 1000 && r) slow++; size_t cx = (size_t)cid("x"), cy = (size_t)cid("y"), cd = (size_t)cid("d"), cz = (size_t)cid("z");
        jl("{\"op\":\"plan\",\"ms\":%ld,\"r\":%d,\"null\":%d,\"n\":%zu,\"path\":[", ms, r, p == NULL, n);
        if (p && n < 5000) for (size_t i = 0; i < n; i++) jl("%s[%ld,%ld,%ld,%ld]", i ? "," : "", q_rnd(p[4*i+cx], 1e3), q_rnd(p[4*i+cy], 1e3), q_rnd(p[4*i+cd], 1e3), q_rnd(p[4*i+cz], 1e3)); jl("]");
        logset("hits", aa_rx_mp_get_collisions(M)); jl("}"); jflush(); free(p);
    } else if (!strcmp(op, "seqadd")) { /* seqadd n values: a path of the world's three configurations */
        if (!Q) Q = aa_rx_mp_seq_create(); size_t n = (size_t)ti(1); double *v = (double*)malloc(sizeof(double)*(4*n+1)); for (size_t i = 0; i < 4*n; i++) v[i] = td(2+(int)i);
        aa_rx_mp_seq_append_all(Q, G, n, v); for (size_t i = 0; i < 4*n; i++) v[i] = -1e9; free(v);
        jl("{\"op\":\"seqadd\",\"v\":["); for (size_t i = 0; i < 4*n; i++) jl("%s%ld", i ? "," : "", ti(2+(int)i)); jl("]}"); jflush();
    } else if (!strcmp(op, "seqget")) { if (!Q) Q = aa_rx_mp_seq_create(); size_t k = aa_rx_mp_seq_count(Q);
        jl("{\"op\":\"seqget\",\"k\":%zu,\"pts\":%zu,\"elts\":[", k, aa_rx_mp_seq_point_count(Q));
        for (size_t i = 0; i <= k; i++) { const struct aa_rx_sg *g = (const struct aa_rx_sg*)1; size_t n = 99; const double *v = (const double*)1; aa_rx_mp_seq_elt(Q, i, &g, &n, &v); jl("%s{\"own\":%d,\"n\":%zu,\"v\":[", i ? "," : "", g == G, n); if (v && n < 1000) for (size_t j = 0; j < 4*n; j++) jl("%s%ld", j ? "," : "", q_rnd(v[j], 1)); jl("],\"null\":%d}", g == NULL && v == NULL); }
        jl("]}"); jflush();
    } else bad_script("op", op);
}
DRV_MAIN
