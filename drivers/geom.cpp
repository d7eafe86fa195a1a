/* Geometry handles: options, shapes, meshes, reference counts, scene ownership, octrees. */
#include "amino.h"
#include "amino/rx/rxtype.h"
#include "amino/rx/scenegraph.h"
#include "amino/rx/scene_geom.h"
#include "amino/rx/scene_collision.h"
#include "amino/rx/octree_geom.hpp"
#include <octomap/ColorOcTree.h>
#include <pthread.h>
#include <vector>
#include <string>
#include <set>
#include <fcntl.h>
#include <unistd.h>
extern "C" {
#include "drv.h"
}
#define MX 64
static struct aa_rx_geom_opt *OPT[4]; static struct aa_rx_geom *G[MX]; static int GRC[MX], NG; static int GM[MX];
static struct aa_rx_mesh *M[MX]; static int MRC[MX], NM; static struct aa_rx_sg *SG[3]; static std::vector<int> *FR[3][6]; static char FN[3][6];
static float FB[3 * 64]; static unsigned UB[3 * 64]; static uint8_t RB[4 * 64]; static struct aa_rx_octree *OCT;
static void cxfree(void) {
    for (int i = 0; i < 3; i++) { if (SG[i]) aa_rx_sg_destroy(SG[i]); SG[i] = NULL; for (int f = 0; f < 6; f++) { delete FR[i][f]; FR[i][f] = NULL; FN[i][f] = 0; } }
}
/* give every reference the script still owns back */
static void finish(void) {
    cxfree();
    /* after the scenes are gone only the user's references are left */
    for (int i = 0; i < NG; i++) if (G[i]) for (int k = 0; k < GRC[i]; k++) aa_rx_geom_destroy(G[i]);
    for (int i = 0; i < NM; i++) if (M[i]) for (int k = 0; k < MRC[i]; k++) aa_rx_mesh_destroy(M[i]);
    for (int i = 0; i < 4; i++) { if (OPT[i]) aa_rx_geom_opt_destroy(OPT[i]); OPT[i] = NULL; }
    if (OCT) { delete OCT->otree; delete OCT; OCT = NULL; }
    NG = NM = 0;
}
static void trace_begin(void) { NG = NM = 0; for (int i = 0; i < 64 * 3; i++) { FB[i] = (float)i; UB[i] = (unsigned)i; }
    for (int i = 0; i < 4; i++) OPT[i] = aa_rx_geom_opt_create(); OCT = NULL; }
static void trace_end(void) { finish(); }
/* GRC / MRC: references the script itself holds; a handle is live while it or a frame (or geometry) holds one */
static int held(int g) { int n = GRC[g]; for (int i = 0; i < 3; i++) for (int f = 0; f < 6; f++) if (FR[i][f]) for (int x : *FR[i][f]) n += x == g; return n; }
static int mheld(int m) { int n = MRC[m]; for (int g = 0; g < NG; g++) if (GM[g] == m && held(g)) n++; return n; }
#define Q(x) q_rnd((x), 1000)
static void jopt(const struct aa_rx_geom_opt *o) {
    jl("[%ld,%ld,%ld,%ld,%ld,%ld,%ld,%ld,%d,%d,%d]", Q(aa_rx_geom_opt_get_color_red(o)), Q(aa_rx_geom_opt_get_color_green(o)), Q(aa_rx_geom_opt_get_color_blue(o)), Q(aa_rx_geom_opt_get_alpha(o)),
       Q(aa_rx_geom_opt_get_specular_red(o)), Q(aa_rx_geom_opt_get_specular_green(o)), Q(aa_rx_geom_opt_get_specular_blue(o)), Q(aa_rx_geom_opt_get_scale(o)),
       aa_rx_geom_opt_get_no_shadow(o), aa_rx_geom_opt_get_visual(o), aa_rx_geom_opt_get_collision(o));
}
static void jshape(const struct aa_rx_geom *g) {
    enum aa_rx_geom_shape t; void *s = aa_rx_geom_shape(g, &t), *s2 = aa_rx_geom_shape(g, NULL);
    jl("\"%s\",", s == s2 ? aa_rx_geom_shape_str(t) : "?differs");
    double d[5]; int n = 0;
    switch (t) {
    case AA_RX_BOX: for (int i = 0; i < 3; i++) d[n++] = ((struct aa_rx_shape_box*)s)->dimension[i]; break;
    case AA_RX_SPHERE: d[n++] = ((struct aa_rx_shape_sphere*)s)->radius; break;
    case AA_RX_CYLINDER: d[n++] = ((struct aa_rx_shape_cylinder*)s)->height; d[n++] = ((struct aa_rx_shape_cylinder*)s)->radius; break;
    case AA_RX_CONE: d[n++] = ((struct aa_rx_shape_cone*)s)->height; d[n++] = ((struct aa_rx_shape_cone*)s)->start_radius; d[n++] = ((struct aa_rx_shape_cone*)s)->end_radius; break;
    case AA_RX_GRID: { struct aa_rx_shape_grid *x = (struct aa_rx_shape_grid*)s; d[n++] = x->dimension[0]; d[n++] = x->dimension[1]; d[n++] = x->delta[0]; d[n++] = x->delta[1]; d[n++] = x->width; break; }
    case AA_RX_TORUS: d[n++] = ((struct aa_rx_shape_torus*)s)->angle; d[n++] = ((struct aa_rx_shape_torus*)s)->major_radius; d[n++] = ((struct aa_rx_shape_torus*)s)->minor_radius; break;
    case AA_RX_MESH: { int m = 0; for (int i = 0; i < NM; i++) if (M[i] == s) m = i + 1; d[n++] = m / 1000.0; break; }
    case AA_RX_OCTREE: d[n++] = (s == (void*)OCT) / 1000.0; break;
    default: break;
    }
    jl("["); for (int i = 0; i < n; i++) jl("%s%ld", i ? "," : "", Q(d[i])); jl("]");
}
static void mapg(void *cx, aa_rx_frame_id id, struct aa_rx_geom *g) {
    void **c = (void**)cx; struct aa_rx_sg *sg = (struct aa_rx_sg*)c[0]; int *n = (int*)c[1]; int k = 0; for (int i = 0; i < NG; i++) if (G[i] == g) k = i + 1;
    jl("%s[\"%s\",%d]", (*n)++ ? "," : "", aa_rx_sg_frame_name(sg, id), k);
}
static void obs(void) {
    jl(",\"geoms\":[");
    for (int i = 0, k = 0; i < NG; i++) { if (G[i] && !held(i)) G[i] = NULL; if (!G[i]) continue; jl("%s[%d,%u,", k++ ? "," : "", i + 1, aa_rx_geom_refcount(G[i])); jshape(G[i]); jl(","); jopt(aa_rx_geom_get_opt(G[i])); jl(",%d]", aa_rx_geom_get_collision(G[i]) != NULL); }
    jl("],\"meshes\":[");
    for (int i = 0, k = 0; i < NM; i++) { if (M[i] && !mheld(i)) M[i] = NULL; if (!M[i]) continue; size_t nv, ni; const float *v = aa_rx_mesh_get_vertices(M[i], &nv); const unsigned *x = aa_rx_mesh_get_indices(M[i], &ni);
        jl("%s[%d,%u,[", k++ ? "," : "", i + 1, aa_rx_mesh_refcount(M[i])); for (size_t j = 0; j < 3 * nv; j++) jl("%s%ld", j ? "," : "", (long)v[j]); jl("],["); for (size_t j = 0; j < 3 * ni; j++) jl("%s%ld", j ? "," : "", (long)x[j]); jl("]]"); }
    jl("],\"sgs\":[");
    for (int i = 0; i < 3; i++) { jl("%s[", i ? "," : ""); if (SG[i]) { aa_rx_sg_init(SG[i]); int n = 0; void *c[2] = {SG[i], &n}; aa_rx_sg_map_geom(SG[i], mapg, c); } jl("]"); }
    jl("]}"); jflush();
}
static int gid(int i) { int k = (int)ti(i) - 1; if (k < 0 || k >= NG || !G[k]) bad_script("geom", TOK[0]); return k; }
static void addg(struct aa_rx_geom *g, int mesh) { if (NG >= MX) bad_script("many", TOK[0]); G[NG] = g; GRC[NG] = 1; GM[NG] = mesh; NG++; }
static double h(int i) { return (double)ti(i) / 1000; }
static pthread_barrier_t bar;
struct par { struct aa_rx_geom *g; struct aa_rx_geom_opt *o; struct aa_rx_mesh *m; int n; };
static void *par_main(void *a) { struct par *p = (struct par*)a;
    for (int i = 0; i < p->n; i++) { struct aa_rx_geom *x = aa_rx_geom_copy(p->g), *y = aa_rx_geom_copy(x); if (p->m) { struct aa_rx_geom *z = aa_rx_geom_mesh(p->o, p->m); aa_rx_geom_destroy(z); } aa_rx_geom_destroy(x); aa_rx_geom_destroy(y); }
    return NULL; }
static const char *FNM[6] = {"a", "b", "c", "d", "e", "f"};
static void trace_cmd(void) {
    const char *op = TOK[0];
    if (!strcmp(op, "opt")) { /* opt slot field values(thousandths) */
        struct aa_rx_geom_opt *o = OPT[ti(1)]; const char *f = ts(2);
        if (!strcmp(f, "color")) aa_rx_geom_opt_set_color3(o, h(3), h(4), h(5));
        else if (!strcmp(f, "specular")) aa_rx_geom_opt_set_specular3(o, h(3), h(4), h(5));
        else if (!strcmp(f, "alpha")) aa_rx_geom_opt_set_alpha(o, h(3));
        else if (!strcmp(f, "scale")) aa_rx_geom_opt_set_scale(o, h(3));
        else if (!strcmp(f, "no_shadow")) aa_rx_geom_opt_set_no_shadow(o, (int)ti(3));
        else if (!strcmp(f, "visual")) aa_rx_geom_opt_set_visual(o, (int)ti(3));
        else if (!strcmp(f, "collision")) aa_rx_geom_opt_set_collision(o, (int)ti(3));
        else bad_script("field", f);
        jl("{\"op\":\"opt\",\"s\":%ld,\"f\":\"%s\",\"x\":[", ti(1), f); for (int i = 3; i < NTOK; i++) jl("%s%ld", i > 3 ? "," : "", ti(i)); jl("],\"o\":"); jopt(o); obs();
    } else if (!strcmp(op, "geom")) { /* geom opt kind params */
        struct aa_rx_geom_opt *o = OPT[ti(1)]; const char *k = ts(2); struct aa_rx_geom *g = NULL;
        if (!strcmp(k, "box")) { double d[3] = {h(3), h(4), h(5)}; g = aa_rx_geom_box(o, d); }
        else if (!strcmp(k, "sphere")) g = aa_rx_geom_sphere(o, h(3));
        else if (!strcmp(k, "cylinder")) g = aa_rx_geom_cylinder(o, h(3), h(4));
        else if (!strcmp(k, "cone")) g = aa_rx_geom_cone(o, h(3), h(4), h(5));
        else if (!strcmp(k, "grid")) { double d[2] = {h(3), h(4)}, e[2] = {h(5), h(6)}; g = aa_rx_geom_grid(o, d, e, h(7)); }
        else if (!strcmp(k, "torus")) g = aa_rx_geom_torus(o, h(3), h(4), h(5));
        else if (!strcmp(k, "mesh")) { int m = (int)ti(3) - 1; if (m < 0 || m >= NM || !M[m]) bad_script("mesh", op); g = aa_rx_geom_mesh(o, M[m]); }
        else if (!strcmp(k, "octree")) { if (!OCT) { OCT = new aa_rx_octree; OCT->otree = new octomap::OcTree(.5); } g = aa_rx_geom_octree(o, OCT); }
        else bad_script("kind", k);
        addg(g, !strcmp(k, "mesh") ? (int)ti(3) - 1 : -1);
        jl("{\"op\":\"geom\",\"s\":%ld,\"k\":\"%s\",\"x\":[", ti(1), k); for (int i = 3; i < NTOK; i++) jl("%s%ld", i > 3 ? "," : "", ti(i)); jl("]"); obs();
    } else if (!strcmp(op, "modopt")) { int k = gid(1); struct aa_rx_geom *g = aa_rx_geom_modify_opt(G[k], OPT[ti(2)]); addg(g, GM[k]); jl("{\"op\":\"modopt\",\"g\":%d,\"s\":%ld", k + 1, ti(2)); obs(); }
    else if (!strcmp(op, "copy")) { int k = gid(1); struct aa_rx_geom *g = aa_rx_geom_copy(G[k]); GRC[k]++; jl("{\"op\":\"copy\",\"g\":%d,\"same\":%d", k + 1, g == G[k]); obs(); }
    else if (!strcmp(op, "destroy")) { int k = gid(1); if (!GRC[k]) bad_script("ref", op); aa_rx_geom_destroy(G[k]); GRC[k]--; jl("{\"op\":\"destroy\",\"g\":%d", k + 1); obs(); }
    else if (!strcmp(op, "mesh")) { if (NM >= MX) bad_script("many", op); M[NM] = aa_rx_mesh_create(); MRC[NM] = 1; NM++; jl("{\"op\":\"mesh\""); obs(); }
    else if (!strcmp(op, "mset")) { /* mset mesh what n copy off */
        int m = (int)ti(1) - 1; const char *w = ts(2); size_t n = (size_t)ti(3); int cp = (int)ti(4); long off = ti(5); if (m < 0 || m >= NM || !M[m] || n > 32) bad_script("mesh", op);
        if (!strcmp(w, "vertices") || !strcmp(w, "normals") || !strcmp(w, "uv")) {
            float *t = (float*)malloc(3 * 64 * sizeof(float)); for (int i = 0; i < 3 * 64; i++) t[i] = (float)(i + off); float *src = cp ? t : FB;
            if (*w == 'v') aa_rx_mesh_set_vertices(M[m], n, src, cp); else if (*w == 'n') aa_rx_mesh_set_normals(M[m], n, src, cp); else aa_rx_mesh_set_uv(M[m], n, src, cp);
            for (int i = 0; i < 3 * 64; i++) t[i] = -1; free(t);
        } else if (!strcmp(w, "indices")) { unsigned *t = (unsigned*)malloc(3 * 64 * sizeof(unsigned)); for (int i = 0; i < 3 * 64; i++) t[i] = (unsigned)(i + off); aa_rx_mesh_set_indices(M[m], n, cp ? t : UB, cp); for (int i = 0; i < 3 * 64; i++) t[i] = 7; free(t); }
        else if (!strcmp(w, "rgba")) { uint8_t *t = (uint8_t*)malloc(4 * n); memset(t, 1, 4 * n); aa_rx_mesh_set_rgba(M[m], n, 1, cp ? t : RB, cp); free(t); }
        else if (!strcmp(w, "texture")) aa_rx_mesh_set_texture(M[m], OPT[0]);
        else bad_script("what", w);
        jl("{\"op\":\"mset\",\"m\":%d,\"w\":\"%s\",\"n\":%zu,\"off\":%ld", m + 1, w, n, cp ? off : 0); obs();
    } else if (!strcmp(op, "mdestroy")) { int m = (int)ti(1) - 1; if (m < 0 || m >= NM || !M[m] || !MRC[m]) bad_script("mesh", op); aa_rx_mesh_destroy(M[m]); MRC[m]--; jl("{\"op\":\"mdestroy\",\"m\":%d", m + 1); obs(); }
    else if (!strcmp(op, "sgnew")) { int i = (int)ti(1); if (SG[i]) bad_script("sg", op); SG[i] = aa_rx_sg_create(); jl("{\"op\":\"sgnew\",\"i\":%d", i + 1); obs(); }
    else if (!strcmp(op, "frame")) { /* frame sg f parent : adds, or replaces a frame of that name */
        int i = (int)ti(1), f = (int)ti(2), p = (int)ti(3); if (!SG[i]) bad_script("sg", op); aa_rx_sg_add_frame_fixed(SG[i], p < 0 ? "" : FNM[p], FNM[f], NULL, NULL); delete FR[i][f]; FR[i][f] = new std::vector<int>; jl("{\"op\":\"frame\",\"i\":%d,\"f\":\"%s\"", i + 1, FNM[f]); obs(); }
    else if (!strcmp(op, "rmframe")) { int i = (int)ti(1), f = (int)ti(2); if (!SG[i] || !FR[i][f]) bad_script("frame", op); aa_rx_sg_rm_frame(SG[i], FNM[f]); delete FR[i][f]; FR[i][f] = NULL; jl("{\"op\":\"rmframe\",\"i\":%d,\"f\":\"%s\"", i + 1, FNM[f]); obs(); }
    else if (!strcmp(op, "attach")) { int i = (int)ti(1), f = (int)ti(2), k = gid(3); if (!SG[i] || !FR[i][f] || !GRC[k]) bad_script("attach", op); aa_rx_geom_attach(SG[i], FNM[f], G[k]); GRC[k]--; FR[i][f]->push_back(k); jl("{\"op\":\"attach\",\"i\":%d,\"f\":\"%s\",\"g\":%d", i + 1, FNM[f], k + 1); obs(); }
    else if (!strcmp(op, "cpframe")) { int i = (int)ti(1), f = (int)ti(2), t = (int)ti(3); if (!SG[i] || !FR[i][f] || !FR[i][t] || f == t) bad_script("frame", op); aa_rx_sg_copy_frame_geom(SG[i], FNM[f], FNM[t]); for (int x : std::vector<int>(*FR[i][f])) FR[i][t]->push_back(x); jl("{\"op\":\"cpframe\",\"i\":%d,\"f\":\"%s\",\"t\":\"%s\"", i + 1, FNM[f], FNM[t]); obs(); }
    else if (!strcmp(op, "sgcopy")) { int i = (int)ti(1), j = (int)ti(2); if (!SG[i] || SG[j]) bad_script("sg", op); aa_rx_sg_init(SG[i]); SG[j] = aa_rx_sg_copy(SG[i]); for (int f = 0; f < 6; f++) if (FR[i][f]) FR[j][f] = new std::vector<int>(*FR[i][f]); jl("{\"op\":\"sgcopy\",\"i\":%d,\"j\":%d", i + 1, j + 1); obs(); }
    else if (!strcmp(op, "sgdel")) { int i = (int)ti(1); if (!SG[i]) bad_script("sg", op); aa_rx_sg_destroy(SG[i]); SG[i] = NULL; for (int f = 0; f < 6; f++) { delete FR[i][f]; FR[i][f] = NULL; } jl("{\"op\":\"sgdel\",\"i\":%d", i + 1); obs(); }
    else if (!strcmp(op, "cl")) { int i = (int)ti(1); if (!SG[i]) bad_script("sg", op); aa_rx_sg_init(SG[i]); aa_rx_sg_cl_init(SG[i]); jl("{\"op\":\"cl\",\"i\":%d", i + 1); obs(); }
    else if (!strcmp(op, "par")) { int k = gid(1), n = (int)ti(2), it = (int)ti(3); struct par p = {G[k], OPT[0], GM[k] >= 0 ? M[GM[k]] : NULL, it}; pthread_t t[8]; if (n > 8) bad_script("par", op);
        for (int i = 0; i < n; i++) pthread_create(&t[i], NULL, par_main, &p); for (int i = 0; i < n; i++) pthread_join(t[i], NULL); jl("{\"op\":\"par\",\"g\":%d", k + 1); obs(); }
    else if (!strcmp(op, "octo")) { /* octo res_mm opt|-1 prune n x y z occ ... : voxel indices */
        double res = (double)ti(1) / 1000; int o = (int)ti(2); long n = ti(4); struct aa_rx_octree t; t.otree = new octomap::OcTree(res);
        for (int i = 0; i < n; i++) { octomap::point3d p((float)((ti(5 + 4*i) + .5) * res), (float)((ti(6 + 4*i) + .5) * res), (float)((ti(7 + 4*i) + .5) * res)); for (int k = 0; k < 8; k++) t.otree->updateNode(p, ti(8 + 4*i) != 0, true); }
        t.otree->updateInnerOccupancy(); if (ti(3)) t.otree->prune(); else t.otree->expand();
        struct aa_rx_sg *sg = aa_rx_sg_create(); aa_rx_sg_add_frame_fixed(sg, "", "base", NULL, NULL);
        aa_rx_sg_add_octree(sg, "base", "oc", &t, o >= 0 ? OPT[o] : NULL); aa_rx_sg_init(sg);
        jl("{\"op\":\"octo\",\"o\":%d,\"in\":[", o); for (int i = 0; i < n; i++) jl("%s[%ld,%ld,%ld,%ld]", i ? "," : "", ti(5+4*i), ti(6+4*i), ti(7+4*i), ti(8+4*i) != 0); jl("],\"boxes\":[");
        size_t nf = aa_rx_sg_frame_count(sg); int k = 0, par = 0; std::vector<double> TF(7 * nf); std::vector<double> qq(1); 
        { struct aa_mem_region *reg = aa_mem_region_local_get(); double *E = AA_MEM_REGION_NEW_N(reg, double, 7 * nf), *A = AA_MEM_REGION_NEW_N(reg, double, 7 * nf); aa_rx_sg_tf(sg, 0, NULL, nf, E, 7, A, 7); for (size_t i = 0; i < 7 * nf; i++) TF[i] = A[i]; aa_mem_region_pop(reg, E); }
        struct bx { static void f(void *cx, aa_rx_frame_id id, struct aa_rx_geom *g) { std::vector<double> *D = (std::vector<double>*)cx; enum aa_rx_geom_shape s; struct aa_rx_shape_box *b = (struct aa_rx_shape_box*)aa_rx_geom_shape(g, &s); double *d = &(*D)[4 * (size_t)id]; d[3] += 1; if (s == AA_RX_BOX) for (int i = 0; i < 3; i++) d[i] = b->dimension[i]; } };
        std::vector<double> D(4 * nf, 0.0); aa_rx_sg_map_geom(sg, bx::f, &D);
        std::set<std::string> names;
        for (size_t i = 0; i < nf; i++) { const char *nm = aa_rx_sg_frame_name(sg, (aa_rx_frame_id)i); if (!strcmp(nm, "base")) continue; names.insert(nm); par += aa_rx_sg_frame_parent(sg, (aa_rx_frame_id)i) == aa_rx_sg_frame_id(sg, "base");
            double *E = &TF[7 * i]; jl("%s[%ld,%ld,%ld,%ld,%ld,%ld,%ld]", k++ ? "," : "", q_int(E[4] / res * 2, 1, 1e-4), q_int(E[5] / res * 2, 1, 1e-4), q_int(E[6] / res * 2, 1, 1e-4), (long)D[4*i+3], q_int(D[4*i] / res, 1, 1e-4), q_int(D[4*i+1] / res, 1, 1e-4), q_int(D[4*i+2] / res, 1, 1e-4)); }
        jl("],\"names\":%zu,\"par\":%d", names.size(), par);
        aa_rx_sg_destroy(sg); delete t.otree; obs();
    } else if (!strcmp(op, "pdrop")) { /* pdrop g|-m ... : one reference each, dropped at the same moment by threads of their own */
        struct dr { struct aa_rx_geom *g; struct aa_rx_mesh *m; static void *f(void *a) { dr *d = (dr*)a; pthread_barrier_wait(&bar); if (d->g) aa_rx_geom_destroy(d->g); else aa_rx_mesh_destroy(d->m); return NULL; } } D[16]; pthread_t T[16]; int n = NTOK - 1; if (n > 16 || n < 1) bad_script("pdrop", op);
        jl("{\"op\":\"pdrop\",\"x\":[");
        for (int i = 0; i < n; i++) { long k = ti(i + 1); jl("%s%ld", i ? "," : "", k); D[i].g = NULL; D[i].m = NULL;
            if (k > 0) { int g = gid(i + 1); if (!GRC[g]) bad_script("ref", op); GRC[g]--; D[i].g = G[g]; } else { int m = (int)-k - 1; if (m < 0 || m >= NM || !MRC[m]) bad_script("mesh", op); MRC[m]--; D[i].m = M[m]; } }
        jl("]"); pthread_barrier_init(&bar, NULL, (unsigned)n);
        for (int i = 0; i < n; i++) pthread_create(&T[i], NULL, dr::f, &D[i]);
        for (int i = 0; i < n; i++) pthread_join(T[i], NULL);
        pthread_barrier_destroy(&bar); obs();
    } else if (!strcmp(op, "octfile")) { /* octfile kind n : reading files of octrees, other trees, garbage, and none */
        const char *k = ts(1); char fn[64]; snprintf(fn, sizeof fn, "oct%lx.ot", (unsigned long)(uintptr_t)&G); long n = ti(2); remove(fn);
        if (!strcmp(k, "good")) { octomap::OcTree t(.5); for (long i = 0; i < n; i++) t.updateNode(octomap::point3d((float)(4 * i) + .25f, .25f, .25f), true); t.write(fn); }
        else if (!strcmp(k, "other")) { octomap::ColorOcTree t(.5); for (long i = 0; i < n; i++) t.updateNode(octomap::point3d((float)(4 * i) + .25f, .25f, .25f), true); t.write(fn); }
        else if (!strcmp(k, "garbage")) { FILE *f = fopen(fn, "w"); for (long i = 0; i < n; i++) fprintf(f, "not a tree %ld\n", i); fclose(f); }
        fflush(NULL); int keep = dup(2), nul = open("/dev/null", O_WRONLY); dup2(nul, 2); close(nul);
        struct aa_rx_octree *o = aa_rx_geom_read_octree_from_file(fn); fflush(NULL); dup2(keep, 2); close(keep); remove(fn);
        long got = -1; if (o) { got = -2; if (o->otree) { got = 0; for (auto i = o->otree->begin_leafs(), e = o->otree->end_leafs(); i != e; ++i) got += o->otree->isNodeOccupied(*i); } delete o->otree; delete o; }
        jl("{\"op\":\"octfile\",\"k\":\"%s\",\"n\":%ld,\"got\":%ld", k, n, got); obs();
    }
    else bad_script("op", op);
}
DRV_MAIN
