/* Collision checking, allowed collisions and distances over scenes whose exact geometry the specification knows. */
#include "amino.h"
#include <float.h>
#include "amino/rx/rxtype.h"
#include "amino/rx/scenegraph.h"
#include "amino/rx/scene_geom.h"
#include "amino/rx/scene_collision.h"
#include "amino/rx/scene_fk.h"
#include "drv.h"
#include "se3util.h"
static struct aa_rx_sg *G; static struct aa_rx_cl *CL; static struct aa_rx_cl_dist *CD;
#define MAXSET 8
static struct aa_rx_cl_set *SETS[MAXSET]; static int NS;
static void drop(void) { if (CD) aa_rx_cl_dist_destroy(CD); CD = NULL; if (CL) aa_rx_cl_destroy(CL); CL = NULL; for (int i = 0; i < NS; i++) aa_rx_cl_set_destroy(SETS[i]); NS = 0; }
static void trace_begin(void) { G = aa_rx_sg_create(); CL = NULL; CD = NULL; NS = 0; }
static void trace_end(void) { drop(); aa_rx_sg_destroy(G); }
static const char *nm(const char *s) { return !strcmp(s, "-") ? "" : s; }
static const char *fname(size_t i) { const char *n = aa_rx_sg_frame_name(G, (aa_rx_frame_id)i); return n ? n : "?"; }
static aa_rx_frame_id fid(const char *n) { aa_rx_frame_id i = aa_rx_sg_frame_id(G, n); if (i < 0) mismatch("frame lookup"); return i; }
static void logset(const char *key, const struct aa_rx_cl_set *s) { /* both index orders must agree */
    size_t n = aa_rx_sg_frame_count(G); int first = 1, sym = 1; jl(",\"%s\":[", key);
    for (size_t i = 0; i < n; i++) for (size_t j = 0; j <= i; j++) { int a = aa_rx_cl_set_get(s, (aa_rx_frame_id)i, (aa_rx_frame_id)j), b = aa_rx_cl_set_get(s, (aa_rx_frame_id)j, (aa_rx_frame_id)i);
        if (a != b) sym = 0; if (a) { jl("%s[\"%s\",\"%s\"]", first ? "" : ",", fname(i), fname(j)); first = 0; } }
    jl("],\"sym\":%d", sym);
}
static size_t cfg(int i, double *q) {
    size_t n = aa_rx_sg_config_count(G); if (n > 64 || (size_t)(NTOK - i) != 3*n) mismatch("number of configuration variables");
    /* name n d triples; revolute: half-angle tangent */
    for (size_t k = 0; k < n; k++) q[k] = 0;
    for (size_t k = 0; k < n; k++) { const char *c = ts(i + 3*(int)k); aa_rx_config_id id = aa_rx_sg_config_id(G, c); if (id < 0 || (size_t)id >= n) mismatch("configuration lookup");
        aa_rx_frame_id f = aa_rx_sg_frame_id(G, c); double a = (double)ti(i+3*(int)k+1), b = (double)ti(i+3*(int)k+2);
        q[id] = aa_rx_sg_frame_type(G, f) == AA_RX_FRAME_REVOLUTE ? 2*atan2(a, b) : a/b; }
    return n;
}
static void logcfg(int i) { jl(",\"q\":["); for (int k = i; k + 2 < NTOK; k += 3) jl("%s{\"c\":\"%s\",\"v\":[%ld,%ld]}", k > i ? "," : "", ts(k), ti(k+1), ti(k+2)); jl("]"); }
static struct aa_rx_geom *mkgeom(const char *sh, const double d[3], struct aa_rx_geom_opt *o) {
    struct aa_rx_geom *g;
    if (!strcmp(sh, "box")) g = aa_rx_geom_box(o, d);
    else if (!strcmp(sh, "sphere")) g = aa_rx_geom_sphere(o, d[0]);
    else if (!strcmp(sh, "cylinder")) g = aa_rx_geom_cylinder(o, d[0], d[1]);
    else if (!strcmp(sh, "mesh")) { struct aa_rx_mesh *m = aa_rx_mesh_create(); float v[24];
        for (int i = 0; i < 8; i++) for (int k = 0; k < 3; k++) v[3*i+k] = (float)((i >> k & 1 ? .5 : -.5)*d[k]);
        static const unsigned ix[36] = {0,2,1, 1,2,3, 4,5,6, 5,7,6, 0,1,4, 1,5,4, 2,6,3, 3,6,7, 0,4,2, 2,4,6, 1,3,5, 3,7,5};
        aa_rx_mesh_set_vertices(m, 8, v, 1); aa_rx_mesh_set_indices(m, 12, ix, 1); g = aa_rx_geom_mesh(o, m); aa_rx_mesh_destroy(m); }
    else { bad_script("shape", sh); return NULL; }
    return g;
}
static void trace_cmd(void) {
    const char *op = TOK[0]; double q[64];
    if (!strcmp(op, "frame")) { /* frame name parent type q4 v4 axis3 */
        long iq[4]; double qq[4], v[3], ax[3]; for (int k = 0; k < 4; k++) iq[k] = ti(4+k); su_iq(iq, qq); for (int k = 0; k < 3; k++) { v[k] = (double)ti(8+k)/(double)ti(11); ax[k] = (double)ti(12+k); }
        const char *n = ts(1), *p = nm(ts(2)), *t = ts(3);
        if (!strcmp(t, "fixed")) aa_rx_sg_add_frame_fixed(G, p, n, qq, v); else if (!strcmp(t, "revolute")) aa_rx_sg_add_frame_revolute(G, p, n, qq, v, NULL, ax, 0); else aa_rx_sg_add_frame_prismatic(G, p, n, qq, v, NULL, ax, 0);
        jl("{\"op\":\"frame\",\"name\":\"%s\",\"parent\":\"%s\",\"type\":\"%s\",\"q\":[%ld,%ld,%ld,%ld],\"v\":[%ld,%ld,%ld,%ld],\"axis\":[%ld,%ld,%ld]}", n, p, t, ti(4), ti(5), ti(6), ti(7), ti(8), ti(9), ti(10), ti(11), ti(12), ti(13), ti(14)); jflush(); }
    else if (!strcmp(op, "geom")) { /* geom shape d1 d2 d3 (half units) scale(half units) coll modify frame [frame...] */
        double d[3]; for (int k = 0; k < 3; k++) d[k] = (double)ti(2+k)/2; struct aa_rx_geom_opt *o = aa_rx_geom_opt_create(); aa_rx_geom_opt_set_scale(o, ti(7) ? 1.5 : (double)ti(5)/2); aa_rx_geom_opt_set_collision(o, ti(7) ? !ti(6) : (int)ti(6));
        struct aa_rx_geom *g = mkgeom(ts(1), d, o);
        if (ti(7)) { struct aa_rx_geom_opt *o2 = aa_rx_geom_opt_create(); aa_rx_geom_opt_set_scale(o2, (double)ti(5)/2); aa_rx_geom_opt_set_collision(o2, (int)ti(6)); struct aa_rx_geom *h = aa_rx_geom_modify_opt(g, o2); aa_rx_geom_destroy(g); g = h; aa_rx_geom_opt_destroy(o2); }
        aa_rx_geom_opt_destroy(o);
        for (int i = 8; i < NTOK; i++) aa_rx_geom_attach(G, ts(i), i == 8 ? g : aa_rx_geom_copy(g));
        jl("{\"op\":\"geom\",\"shape\":\"%s\",\"d\":[%ld,%ld,%ld],\"sc\":%ld,\"coll\":%ld,\"fr\":[", ts(1), ti(2), ti(3), ti(4), ti(5), ti(6)); for (int i = 8; i < NTOK; i++) jl("%s\"%s\"", i > 8 ? "," : "", ts(i)); jl("]}"); jflush(); }
    else if (!strcmp(op, "rm")) { drop(); aa_rx_sg_rm_frame(G, ts(1)); jl("{\"op\":\"rm\",\"name\":\"%s\"}", ts(1)); jflush(); }
    else if (!strcmp(op, "init")) { drop(); int r = aa_rx_sg_init(G); aa_rx_sg_cl_init(G); jl("{\"op\":\"init\",\"r\":%d,\"n\":%zu}", r, aa_rx_sg_frame_count(G)); jflush(); }
    else if (!strcmp(op, "copy")) { drop(); struct aa_rx_sg *h = aa_rx_sg_copy(G); if (ti(1)) aa_rx_sg_destroy(G); struct aa_rx_sg *old = G; G = h; int r = aa_rx_sg_init(G); aa_rx_sg_cl_init(G); if (!ti(1)) aa_rx_sg_destroy(old); jl("{\"op\":\"init\",\"r\":%d,\"n\":%zu}", r, aa_rx_sg_frame_count(G)); jflush(); }
    else if (!strcmp(op, "sgallow")) { /* sgallow byname a b v */
        if (ti(1)) aa_rx_sg_allow_collision_name(G, ts(2), ts(3), (int)ti(4)); else aa_rx_sg_allow_collision(G, fid(ts(2)), fid(ts(3)), (int)ti(4));
        aa_rx_sg_cl_init(G);
        jl("{\"op\":\"sgallow\",\"a\":\"%s\",\"b\":\"%s\",\"v\":%ld}", ts(2), ts(3), ti(4)); jflush(); }
    else if (!strcmp(op, "allowconfig")) { size_t n = cfg(1, q); aa_rx_sg_allow_config(G, n, q); aa_rx_sg_cl_init(G); struct aa_rx_cl_set *s = aa_rx_cl_set_create(G); aa_rx_sg_cl_set_copy(G, s); jl("{\"op\":\"allowconfig\""); logcfg(1); logset("set", s); jl("}"); jflush(); aa_rx_cl_set_destroy(s); }
    else if (!strcmp(op, "sgset")) { struct aa_rx_cl_set *s = aa_rx_cl_set_create(G); aa_rx_sg_cl_set_copy(G, s); jl("{\"op\":\"sgset\""); logset("set", s); jl("}"); jflush(); aa_rx_cl_set_destroy(s); }
    else if (!strcmp(op, "getcoll")) { size_t n = cfg(1, q); struct aa_rx_cl_set *s = aa_rx_cl_set_create(G); aa_rx_sg_get_collision(G, n, q, s); jl("{\"op\":\"getcoll\""); logcfg(1); logset("set", s); jl("}"); jflush(); aa_rx_cl_set_destroy(s); }
    else if (!strcmp(op, "clnew")) { if (CD) aa_rx_cl_dist_destroy(CD); CD = NULL; if (CL) aa_rx_cl_destroy(CL); CL = aa_rx_cl_create(G); jl("{\"op\":\"clnew\"}"); jflush(); }
    else if (!strcmp(op, "clallow")) { if (!CL) bad_script("no cl", op); if (ti(1)) aa_rx_cl_allow_name(CL, ts(2), ts(3), (int)ti(4)); else aa_rx_cl_allow(CL, fid(ts(2)), fid(ts(3)), (int)ti(4)); jl("{\"op\":\"clallow\",\"a\":\"%s\",\"b\":\"%s\",\"v\":%ld}", ts(2), ts(3), ti(4)); jflush(); }
    else if (!strcmp(op, "setnew")) { if (NS >= MAXSET) bad_script("sets", op); SETS[NS++] = aa_rx_cl_set_create(G); jl("{\"op\":\"setnew\""); logset("set", SETS[NS-1]); jl("}"); jflush(); }
    else if (!strcmp(op, "setset") || !strcmp(op, "setfill") || !strcmp(op, "setmerge") || !strcmp(op, "setclear") || !strcmp(op, "clallowset")) { long k = ti(1), l = 0; if (k < 1 || k > NS) bad_script("set", op);
        if (!strcmp(op, "setset")) aa_rx_cl_set_set(SETS[k-1], fid(ts(2)), fid(ts(3)), (int)ti(4));
        else if (!strcmp(op, "setclear")) aa_rx_cl_set_clear(SETS[k-1]);
        else if (!strcmp(op, "clallowset")) { if (!CL) bad_script("no cl", op); aa_rx_cl_allow_set(CL, SETS[k-1]); }
        else { l = ti(2); if (l < 1 || l > NS) bad_script("set", op); if (!strcmp(op, "setfill")) aa_rx_cl_set_fill(SETS[k-1], SETS[l-1]); else aa_rx_cl_set_merge(SETS[k-1], SETS[l-1]); }
        jl("{\"op\":\"%s\",\"k\":%ld,\"l\":%ld", op, k, l); if (!strcmp(op, "setset")) jl(",\"a\":\"%s\",\"b\":\"%s\",\"v\":%ld", ts(2), ts(3), ti(4)); logset("set", SETS[k-1]); jl("}"); jflush(); }
    else if (!strcmp(op, "check")) { /* check how set q... : how 0 array, 1 array ld 9, 2 fk */
        if (!CL) bad_script("no cl", op); size_t n = cfg(3, q), nf = aa_rx_sg_frame_count(G); long how = ti(1), k = ti(2); struct aa_rx_cl_set *s = k ? SETS[k-1] : NULL; int r; struct aa_rx_fk *fk = aa_rx_fk_malloc(G); struct aa_dvec qv = AA_DVEC_INIT(n, q, 1); aa_rx_fk_all(fk, &qv);
        if (how == 2) r = aa_rx_cl_check_fk(CL, fk, s); else { size_t ld = how ? 9 : 7; double *T = malloc(8*ld*(nf+1)); for (size_t i = 0; i < nf; i++) aa_rx_fk_get_abs_qutr(fk, (aa_rx_frame_id)i, T + i*ld); r = aa_rx_cl_check(CL, nf, T, ld, s); free(T); }
        aa_rx_fk_destroy(fk); jl("{\"op\":\"check\",\"r\":%d,\"k\":%ld", r ? 1 : 0, k); logcfg(3); if (s) logset("set", s); jl("}"); jflush(); }
    else if (!strcmp(op, "dist")) { if (!CL) bad_script("no cl", op); if (!CD) CD = aa_rx_cl_dist_create(CL); size_t n = cfg(1, q), nf = aa_rx_sg_frame_count(G); struct aa_rx_fk *fk = aa_rx_fk_malloc(G); struct aa_dvec qv = AA_DVEC_INIT(n, q, 1); aa_rx_fk_all(fk, &qv); int r = aa_rx_cl_dist_check(CD, fk);
        jl("{\"op\":\"dist\",\"r\":%d", r ? 1 : 0); logcfg(1); jl(",\"pairs\":["); int first = 1;
        for (size_t i = 0; i < nf; i++) for (size_t j = 0; j < nf; j++) { if (i == j) continue; double p0[3] = {0}, p1[3] = {0}, d = aa_rx_cl_dist_get_dist(CD, (aa_rx_frame_id)i, (aa_rx_frame_id)j), d2; d2 = aa_rx_cl_dist_get_points(CD, (aa_rx_frame_id)i, (aa_rx_frame_id)j, p0, p1); int big = d == DBL_MAX;
            jl("%s{\"a\":\"%s\",\"b\":\"%s\",\"big\":%d,\"same\":%d,\"d\":%ld", first ? "" : ",", fname(i), fname(j), big, d == d2, big ? 0 : q_rnd(d, 800)); first = 0; if (big) p0[0] = p0[1] = p0[2] = p1[0] = p1[1] = p1[2] = 0; jdarr("p0", p0, 3, 800, -1); jdarr("p1", p1, 3, 800, -1); jl("}"); }
        jl("],\"min\":["); for (size_t i = 0; i < nf; i++) { aa_rx_frame_id id1 = -7; double pts[6] = {0}, d = aa_rx_cl_dist_get_min_dist(CD, (aa_rx_frame_id)i, &id1, pts); double e = 0, p0[3], p1[3]; if (id1 >= 0) { aa_rx_cl_dist_get_points(CD, (aa_rx_frame_id)i, id1, p0, p1); for (int k = 0; k < 3; k++) e += fabs(p0[k]-pts[k]) + fabs(p1[k]-pts[3+k]); }
            jl("%s{\"a\":\"%s\",\"b\":\"%s\",\"big\":%d,\"d\":%ld,\"e\":%d}", i ? "," : "", fname(i), id1 >= 0 ? fname((size_t)id1) : "", d == DBL_MAX, d == DBL_MAX ? 0 : q_rnd(d, 800), e == 0 ? 0 : 1); }
        jl("]}"); jflush(); aa_rx_fk_destroy(fk); }
    else bad_script("op", op);
}
DRV_MAIN
