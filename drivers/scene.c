/* Executes scene-graph edit histories and records indices, kinematics, limits, inertia. */
#include "amino.h"
#include "amino/rx/rxtype.h"
#include "amino/rx/scenegraph.h"
#include "amino/rx/scenegraph_internal.h"
#include "amino/rx/scene_fk.h"
#include "amino/rx/scene_dyn.h"
#include "amino/rx/scene_ik.h"
#include "amino/rx/scene_sub.h"
#include "amino/rx/scene_ik_internal.h"
#include "drv.h"
#include "se3util.h"
#define MAXG 16
static struct aa_rx_sg *G[MAXG]; static int NG;
#define MAXS 32
static struct aa_rx_sg_sub *S[MAXS]; static long SG[MAXS]; static int NS;
extern struct aa_rx_sg_sub *aa_rx_sg_multiple_chain_create(const struct aa_rx_sg *, aa_rx_frame_id, size_t, aa_rx_frame_id *);
static char NAMES[64][16], CFGS[64][16]; static int NN, NCF;
static void remember(char t[64][16], int *n, const char *x) { for (int i = 0; i < *n; i++) if (!strcmp(t[i], x)) return; if (*n < 64 && strlen(x) < 16) strcpy(t[(*n)++], x); }
static void trace_begin(void) { NN = NCF = 0; NG = 0; NS = 0; memset(G, 0, sizeof G); }
static void trace_end(void) { for (int i = 0; i < NS; i++) aa_rx_sg_sub_destroy(S[i]);
    for (int i = 0; i < NG; i++) if (G[i]) aa_rx_sg_destroy(G[i]); }
static struct aa_rx_sg *g_(int tok) { long h = ti(tok); if (h < 1 || h > NG || !G[h-1]) bad_script("graph", TOK[0]); return G[h-1]; }
static const char *nm(const char *s) { return !strcmp(s, "-") ? "" : s; }
static void pose(const double P[12], int first) { jl("%s[", first ? "" : ","); for (int i = 0; i < 12; i++) jl("%s%ld", i ? "," : "", q_rnd(P[i], 1e5)); jl("]"); }
static void strs(const char *k, const char **a, size_t n) { jl(",\"%s\":[", k); for (size_t i = 0; i < n; i++) jl("%s\"%s\"", i ? "," : "", a[i]); jl("]"); }
/* tokens i.. : qx qy qz qw  vx vy vz vd ; returns doubles */
static void readqv(int i, double q[4], double v[3]) {
    long iq[4]; for (int k = 0; k < 4; k++) iq[k] = ti(i + k);
    su_iq(iq, q); for (int k = 0; k < 3; k++) v[k] = (double)ti(i + 4 + k) / (double)ti(i + 7);
}
static void logqv(int i) { jl(",\"q\":[%ld,%ld,%ld,%ld],\"v\":[%ld,%ld,%ld],\"vd\":%ld", ti(i), ti(i+1), ti(i+2), ti(i+3), ti(i+4), ti(i+5), ti(i+6), ti(i+7)); }
/* config values: pairs n d, interpreted by the type of the joints using the config */
static size_t readcfg(struct aa_rx_sg *g, int i, double *q) {
    size_t n = aa_rx_sg_config_count(g);
    if ((size_t)(NTOK - i) < 2 * n || n > 250) { mismatch("number of configuration variables"); return 0; }
    for (size_t k = 0; k < n; k++) q[k] = 0;
    size_t nf = aa_rx_sg_frame_count(g);
    for (size_t f = 0; f < nf; f++) {
        aa_rx_config_id c = aa_rx_sg_frame_config(g, (aa_rx_frame_id)f);
        if (c < 0 || (size_t)c >= n) continue;
        double a = (double)ti(i + 2*(int)c), b = (double)ti(i + 2*(int)c + 1);
        q[c] = aa_rx_sg_frame_type(g, (aa_rx_frame_id)f) == AA_RX_FRAME_REVOLUTE ? 2*atan2(a, b) : a / b;
    }
    return n;
}
static void logcfg(size_t n, int i) { jl(",\"q\":["); for (size_t k = 0; k < n; k++) jl("%s[%ld,%ld]", k ? "," : "", ti(i + 2*(int)k), ti(i + 2*(int)k + 1)); jl("]"); }
static void trace_cmd(void) {
    const char *op = TOK[0];
    if (!strcmp(op, "create")) { if (NG >= MAXG) bad_script("graphs", op); G[NG++] = aa_rx_sg_create(); jl("{\"op\":\"create\"}"); jflush(); return; }
    struct aa_rx_sg *g = g_(1); long h = ti(1);
    if (!strcmp(op, "copy")) { if (NG >= MAXG) bad_script("graphs", op); G[NG++] = aa_rx_sg_copy(g); jl("{\"op\":\"copy\",\"g\":%ld}", h); jflush(); }
    else if (!strcmp(op, "destroy")) { aa_rx_sg_destroy(g); G[h-1] = NULL; jl("{\"op\":\"destroy\",\"g\":%ld}", h); jflush(); }
    else if (!strcmp(op, "add")) {
        /* add g name parent type cfg(or -) q4 v3 vd axis3 axd offn offd nulls */
        double q[4], v[3], ax[3]; const char *name = ts(2), *par = nm(ts(3)), *type = ts(4), *cfg = ts(5);
        readqv(6, q, v); for (int k = 0; k < 3; k++) ax[k] = (double)ti(14 + k) / (double)ti(17);
        double on = (double)ti(18), od = (double)ti(19); int nulls = (int)ti(20);
        const double *qp = (nulls & 1) ? NULL : q, *vp = (nulls & 2) ? NULL : v;
        const char *cp = !strcmp(cfg, "-") ? NULL : cfg; remember(NAMES, &NN, name); remember(CFGS, &NCF, cp ? cp : name);
        if (!strcmp(type, "fixed")) aa_rx_sg_add_frame_fixed(g, par, name, qp, vp);
        else if (!strcmp(type, "revolute")) aa_rx_sg_add_frame_revolute(g, par, name, qp, vp, cp, ax, 2*atan2(on, od));
        else if (!strcmp(type, "prismatic")) aa_rx_sg_add_frame_prismatic(g, par, name, qp, vp, cp, ax, on/od);
        else bad_script("type", type);
        jl("{\"op\":\"add\",\"g\":%ld,\"name\":\"%s\",\"parent\":\"%s\",\"type\":\"%s\",\"cfg\":\"%s\"", h, name, par, type, cp ? cp : name);
        jl(",\"q\":[%ld,%ld,%ld,%ld],\"v\":[%ld,%ld,%ld],\"vd\":%ld", nulls & 1 ? 0 : ti(6), nulls & 1 ? 0 : ti(7), nulls & 1 ? 0 : ti(8), nulls & 1 ? 1 : ti(9),
           nulls & 2 ? 0 : ti(10), nulls & 2 ? 0 : ti(11), nulls & 2 ? 0 : ti(12), ti(13));
        jl(",\"axis\":[%ld,%ld,%ld],\"axd\":%ld,\"off\":[%ld,%ld]}", ti(14), ti(15), ti(16), ti(17), ti(18), ti(19)); jflush();
    }
    else if (!strcmp(op, "rm")) { aa_rx_sg_rm_frame(g, ts(2)); jl("{\"op\":\"rm\",\"g\":%ld,\"name\":\"%s\"}", h, ts(2)); jflush(); }
    else if (!strcmp(op, "reparent")) { /* reparent g byid name parent q4 v3 vd */
        double E[7]; readqv(5, E, E + 4); const char *name = ts(3), *par = nm(ts(4));
        if (ti(2)) aa_rx_sg_reparent_id(g, aa_rx_sg_frame_id(g, par), aa_rx_sg_frame_id(g, name), E);
        else aa_rx_sg_reparent_name(g, par, name, E);
        jl("{\"op\":\"reparent\",\"g\":%ld,\"name\":\"%s\",\"parent\":\"%s\"", h, name, par); logqv(5); jl("}"); jflush();
    }
    else if (!strcmp(op, "init")) {
        int r = aa_rx_sg_init(g); jl("{\"op\":\"init\",\"g\":%ld,\"r\":%d", h, r);
        size_t nf = 0, nc = 0; const char *names[256], *cnames[256], *cn2[256]; long a[256];
        if (!r) {
            nf = aa_rx_sg_frame_count(g); nc = aa_rx_sg_config_count(g);
            if (nf > 250 || nc > 250) { jl(",\"nf\":%ld,\"nc\":%ld,\"names\":[],\"cnames\":[]}", (long)(nf > 1000000 ? 1000000 : nf), (long)(nc > 1000000 ? 1000000 : nc)); jflush(); return; }
            for (size_t i = 0; i < nf; i++) names[i] = aa_rx_sg_frame_name(g, (aa_rx_frame_id)i);
            for (size_t i = 0; i < nc; i++) cnames[i] = aa_rx_sg_config_name(g, (aa_rx_config_id)i);
            jl(",\"nf\":%zu,\"nc\":%zu", nf, nc); strs("names", names, nf); strs("cnames", cnames, nc);
            for (size_t i = 0; i < nf; i++) a[i] = aa_rx_sg_frame_id(g, names[i]); jarr("fid", a, nf);
            for (size_t i = 0; i < nf; i++) a[i] = (long)aa_rx_sg_frame_type(g, (aa_rx_frame_id)i) == AA_RX_FRAME_FIXED ? 0 : aa_rx_sg_frame_type(g, (aa_rx_frame_id)i) == AA_RX_FRAME_REVOLUTE ? 1 : 2; jarr("types", a, nf);
            for (size_t i = 0; i < nf; i++) a[i] = aa_rx_sg_frame_parent(g, (aa_rx_frame_id)i); jarr("parents", a, nf);
            for (size_t i = 0; i < nf; i++) a[i] = aa_rx_sg_frame_config(g, (aa_rx_frame_id)i); jarr("fcfg", a, nf);
            for (size_t i = 0; i < nc; i++) a[i] = aa_rx_sg_config_id(g, cnames[i]); jarr("cid", a, nc);
            /* the bulk accessors must agree with the single ones */
            int same = aa_rx_sg_config_names(g, 256, cn2) == nc; aa_rx_config_id ci[256]; aa_rx_sg_config_indices(g, nc, cnames, ci);
            for (size_t i = 0; i < nc; i++) if (strcmp(cn2[i], cnames[i]) || ci[i] != a[i]) same = 0;
            int ph = !strcmp(aa_rx_sg_frame_name(g, (aa_rx_frame_id)nf), "?") && !strcmp(aa_rx_sg_frame_name(g, -2), "?") && !strcmp(aa_rx_sg_frame_name(g, -1), "")
                && !strcmp(aa_rx_sg_config_name(g, (aa_rx_config_id)nc), "NONE") && !strcmp(aa_rx_sg_config_name(g, -1), "NONE") && aa_rx_sg_frame_parent(g, -1) == -2;
            jl(",\"flook\":["); for (int i = 0; i < NN; i++) jl("%s[\"%s\",%d]", i ? "," : "", NAMES[i], aa_rx_sg_frame_id(g, NAMES[i]));
            jl("],\"clook\":["); for (int i = 0; i < NCF; i++) jl("%s[\"%s\",%d]", i ? "," : "", CFGS[i], aa_rx_sg_config_id(g, CFGS[i])); jl("]");
            jl(",\"badf\":%d,\"badc\":%d,\"rootid\":%d,\"badname\":%d", aa_rx_sg_frame_id(g, "no_such_frame"), aa_rx_sg_config_id(g, "no_such_config"), aa_rx_sg_frame_id(g, ""), ph && same);
        }
        jl("}"); jflush();
    }
    else if (!strcmp(op, "fk")) { /* fk g api ld-extra q... */
        const char *api = ts(2); int pad = (int)ti(3); double q[256]; size_t nq = readcfg(g, 4, q), nf = aa_rx_sg_frame_count(g);
        double P[12]; size_t w = !strcmp(api, "tfmat") ? 12 : !strcmp(api, "duqu") ? 8 : 7; size_t ld = w + (size_t)pad;
        double *rel = calloc(ld * nf + 1, 8), *abs_ = calloc(ld * nf + 1, 8); int haverel = 1;
        for (size_t i = 0; i < ld * nf; i++) rel[i] = abs_[i] = -77;
        struct aa_mem_region *reg = aa_mem_region_create(64);
        double *qs = malloc(sizeof(double) * (3 * nq + 1)); for (size_t i = 0; i < nq; i++) { qs[3*i] = q[i]; if (i + 1 < nq) { qs[3*i+1] = 99; qs[3*i+2] = 99; } }
        struct aa_dvec v1, v3; aa_dvec_view(&v1, nq, q, 1); aa_dvec_view(&v3, nq, qs, 3);
        if (!strcmp(api, "tf")) aa_rx_sg_tf(g, nq, q, nf, rel, ld, abs_, ld);
        else if (!strcmp(api, "tfmat")) aa_rx_sg_tfmat(g, nq, q, nf, rel, ld, abs_, ld);
        else if (!strcmp(api, "duqu")) aa_rx_sg_duqu(g, nq, q, nf, rel, ld, abs_, ld);
        else if (!strcmp(api, "update")) { /* from a different configuration: every second value moved */
            double q0[256]; for (size_t i = 0; i < nq; i++) q0[i] = (i + (size_t)pad) % 2 ? q[i] : q[i] + 0.7;
            double *rel0 = calloc(7 * nf + 1, 8), *abs0 = calloc(7 * nf + 1, 8);
            aa_rx_sg_tf(g, nq, q0, nf, rel0, 7, abs0, 7);
            aa_rx_sg_tf_update(g, nq, q0, q, nf, rel0, 7, abs0, 7, rel, ld, abs_, ld); free(rel0); free(abs0);
        }
        else { haverel = 0;
            if (!strcmp(api, "fk") || !strcmp(api, "fkinc")) {
                struct aa_rx_fk *fk = pad ? aa_rx_fk_malloc(g) : aa_rx_fk_alloc(g, reg); aa_rx_fk_all(fk, !strcmp(api, "fk") ? &v1 : &v3);
                if (pad) { struct aa_rx_fk *f2 = aa_rx_fk_malloc(g); aa_rx_fk_cpy(f2, fk); aa_rx_fk_destroy(fk); fk = f2; }
                for (size_t i = 0; i < nf; i++) aa_rx_fk_get_abs_qutr(fk, (aa_rx_frame_id)i, abs_ + i*ld);
                if (pad) aa_rx_fk_destroy(fk);
            } else if (!strcmp(api, "gettf")) { struct aa_dmat *m = aa_rx_sg_get_tf_abs(g, reg, pad ? &v3 : &v1); for (size_t i = 0; i < nf; i++) for (int k = 0; k < 7; k++) abs_[i*ld+(size_t)k] = AA_DMAT_REF(m, (size_t)k, i); }
            else bad_script("api", api);
        }
        jl("{\"op\":\"fk\",\"g\":%ld,\"api\":\"%s\"", h, api); logcfg(nq, 4); jl(",\"abs\":[");
        for (size_t i = 0; i < nf; i++) { if (w == 12) su_tfmat2p(abs_+i*ld, P); else if (w == 8) su_duqu2p(abs_+i*ld, P); else su_qutr2p(abs_+i*ld, P); pose(P, i == 0); }
        jl("],\"rel\":[");
        if (haverel) for (size_t i = 0; i < nf; i++) { if (w == 12) su_tfmat2p(rel+i*ld, P); else if (w == 8) su_duqu2p(rel+i*ld, P); else su_qutr2p(rel+i*ld, P); pose(P, i == 0); }
        int padok = 1; for (size_t i = 0; i < nf; i++) for (size_t k = w; k < ld; k++) if (abs_[i*ld+k] != -77 || rel[i*ld+k] != -77) padok = 0;
        jl("],\"pad\":%d}", padok); jflush(); free(rel); free(abs_); free(qs); aa_mem_region_destroy(reg);
    }
    else if (!strcmp(op, "fkrel")) { /* fkrel g api a b q... */
        const char *api = ts(2); aa_rx_frame_id a = (aa_rx_frame_id)ti(3), b = (aa_rx_frame_id)ti(4); double q[256], E[7], P[12]; size_t nq = readcfg(g, 5, q), nf = aa_rx_sg_frame_count(g);
        if (!strcmp(api, "reltf")) { double *rel = calloc(9*nf+1, 8), *ab = calloc(9*nf+1, 8); aa_rx_sg_tf(g, nq, q, nf, rel, 9, ab, 9); aa_rx_sg_rel_tf(g, a, b, ab, 9, E); free(rel); free(ab); }
        else { struct aa_dvec v; aa_dvec_view(&v, nq, q, 1); struct aa_rx_fk *fk = aa_rx_fk_malloc(g); aa_rx_fk_all(fk, &v); aa_rx_fk_get_rel_qutr(fk, a, b, E); aa_rx_fk_destroy(fk); }
        su_qutr2p(E, P); jl("{\"op\":\"fkrel\",\"g\":%ld,\"a\":%d,\"b\":%d", h, a, b); logcfg(nq, 5); jl(",\"x\":"); pose(P, 1); jl("}"); jflush();
    }
    else if (!strcmp(op, "limit")) { /* limit g cfg kind lo hi */
        const char *k = ts(3); double lo = td(4), hi = td(5);
        if (!strcmp(k, "pos")) aa_rx_sg_set_limit_pos(g, ts(2), lo, hi); else if (!strcmp(k, "vel")) aa_rx_sg_set_limit_vel(g, ts(2), lo, hi);
        else if (!strcmp(k, "acc")) aa_rx_sg_set_limit_acc(g, ts(2), lo, hi); else aa_rx_sg_set_limit_eff(g, ts(2), lo, hi);
        jl("{\"op\":\"limit\",\"g\":%ld,\"cfg\":\"%s\",\"kind\":\"%s\",\"lo\":%ld,\"hi\":%ld}", h, ts(2), k, ti(4), ti(5)); jflush();
    }
    else if (!strcmp(op, "getlims")) {
        size_t nc = aa_rx_sg_config_count(g); const char *kinds[] = {"pos", "vel", "acc", "eff"};
        for (size_t c = 0; c < nc; c++) for (int k = 0; k < 4; k++) { double lo = 0, hi = 0; int r; aa_rx_config_id id = (aa_rx_config_id)c;
            r = k == 0 ? aa_rx_sg_get_limit_pos(g, id, &lo, &hi) : k == 1 ? aa_rx_sg_get_limit_vel(g, id, &lo, &hi) : k == 2 ? aa_rx_sg_get_limit_acc(g, id, &lo, &hi) : aa_rx_sg_get_limit_eff(g, id, &lo, &hi);
            jl("{\"op\":\"getlim\",\"g\":%ld,\"c\":%zu,\"kind\":\"%s\",\"r\":%d,\"lo\":%ld,\"hi\":%ld}", h, c, kinds[k], r, q_int(lo, 1, 0), q_int(hi, 1, 0)); jflush(); }
        double q[256]; for (int i = 0; i < 256; i++) q[i] = 0; aa_rx_sg_center_configs(g, nc, q); int same = 1;
        for (size_t c = 0; c < nc; c++) if (q[c] != aa_rx_sg_config_center(g, (aa_rx_config_id)c)) same = 0;
        jl("{\"op\":\"centers\",\"g\":%ld,\"same\":%d", h, same); jdarr("c2", q, nc, 2, 0); jl("}"); jflush();
    }
    else if (!strcmp(op, "inertial")) { /* inertial g name mass i0 */
        double I[9]; for (int k = 0; k < 9; k++) I[k] = td(4) + k; aa_rx_sg_frame_set_inertial(g, ts(2), td(3), I);
        jl("{\"op\":\"inertial\",\"g\":%ld,\"name\":\"%s\",\"mass\":%ld", h, ts(2), ti(3)); jdarr("inertia", I, 9, 1, 0); jl("}"); jflush();
    }
    else if (!strcmp(op, "getmass")) {
        size_t nf = aa_rx_sg_frame_count(g);
        for (size_t f = 0; f < nf; f++) { double m = aa_rx_sg_frame_get_mass(g, (aa_rx_frame_id)f); const double *I = aa_rx_sg_frame_get_inertia(g, (aa_rx_frame_id)f);
            int has = !isnan(m); if (has != (I != NULL)) has = 2;
            jl("{\"op\":\"getmass\",\"g\":%ld,\"f\":%zu,\"has\":%d,\"mass\":%ld", h, f, has, has == 1 ? q_int(m, 1, 0) : 0); jdarr("inertia", I, has == 1 ? 9 : 0, 1, 0); jl("}"); jflush(); }
    }
    else if (!strcmp(op, "chain") || !strcmp(op, "mchain")) { /* chain g root tip | mchain g root tip... */
        if (NS >= MAXS) bad_script("subs", op);
        aa_rx_frame_id root = (aa_rx_frame_id)ti(2), tips[64]; long a[256]; size_t n = (size_t)(NTOK - 3); for (size_t i = 0; i < n; i++) tips[i] = (aa_rx_frame_id)ti(3 + (int)i);
        struct aa_rx_sg_sub *s = !strcmp(op, "chain") ? aa_rx_sg_chain_create(g, root, tips[0]) : aa_rx_sg_multiple_chain_create(g, root, n, tips);
        SG[NS] = h; S[NS++] = s;
        size_t nf = aa_rx_sg_sub_frame_count(s), nc = aa_rx_sg_sub_config_count(s), ne = aa_rx_sg_sub_frame_ee_count(s), r, c;
        jl("{\"op\":\"sub\",\"g\":%ld,\"root\":%d", h, root); for (size_t i = 0; i < n; i++) a[i] = tips[i]; jarr("tips", a, n);
        if (nf > 200 || nc > 200 || ne > 60) { jl(",\"frames\":[],\"configs\":[],\"ees\":[],\"same\":0}"); jflush(); return; }
        for (size_t i = 0; i < nf; i++) a[i] = aa_rx_sg_sub_frame(s, i); jarr("frames", a, nf);
        for (size_t i = 0; i < nc; i++) a[i] = aa_rx_sg_sub_config(s, i); jarr("configs", a, nc);
        for (size_t i = 0; i < ne; i++) a[i] = aa_rx_sg_sub_frame_ees(s)[i]; jarr("ees", a, ne);
        int same = aa_rx_sg_sub_sg(s) == g && aa_rx_sg_sub_all_config_count(s) == aa_rx_sg_config_count(g) && aa_rx_sg_sub_all_frame_count(s) == aa_rx_sg_frame_count(g)
            && aa_rx_sg_sub_frame_ee(s) == tips[0];
        for (size_t i = 0; i < nf; i++) if (aa_rx_sg_sub_frames(s)[i] != aa_rx_sg_sub_frame(s, i)) same = 0;
        for (size_t i = 0; i < nc; i++) if (aa_rx_sg_sub_configs(s)[i] != aa_rx_sg_sub_config(s, i)) same = 0;
        aa_rx_sg_sub_jacobian_size(s, &r, &c); if (r != 6 || c != nc) same = 0;
        jl(",\"same\":%d}", same); jflush();
    }
    else if (!strcmp(op, "subcfg")) { /* subcfg g k api base  : integer configurations base+i (all), 100+i (sub) */
        long k = ti(2); if (k < 1 || k > NS || SG[k-1] != h) bad_script("sub", op); struct aa_rx_sg_sub *s = S[k-1]; const char *api = ts(3); long base = ti(4);
        size_t na = aa_rx_sg_config_count(g), ns = aa_rx_sg_sub_config_count(s); double *all = malloc(8*(4*na+4)), *sub = malloc(8*(3*ns+3)), *out = malloc(8*(8*na+8*ns+8));
        size_t ia = 1, is = 1; jl("{\"op\":\"subcfg\",\"g\":%ld,\"k\":%ld,\"api\":\"%s\",\"base\":%ld", h, k, api, base);
        if (!strcmp(api, "gather") || !strcmp(api, "scatter")) { ia = 2; is = 3; if (base % 2) { ia = 1; } if (base % 3 == 0) is = 1; }
        for (size_t i = 0; i < 4*na; i++) all[i] = -7; for (size_t i = 0; i < 3*ns; i++) sub[i] = -7;
        for (size_t i = 0; i < na; i++) all[i*ia] = (double)(base + (long)i); for (size_t i = 0; i < ns; i++) sub[i*is] = (double)(100 + (long)i);
        struct aa_dvec va, vs; aa_dvec_view(&va, na, all, ia); aa_dvec_view(&vs, ns, sub, is);
        if (!strcmp(api, "gather")) aa_rx_sg_sub_config_gather(s, &va, &vs); else if (!strcmp(api, "scatter")) aa_rx_sg_sub_config_scatter(s, &vs, &va);
        else if (!strcmp(api, "get")) aa_rx_sg_sub_config_get(s, na, all, ns, sub); else if (!strcmp(api, "set")) aa_rx_sg_sub_config_set(s, ns, sub, na, all);
        else if (!strcmp(api, "path")) { double *ps = malloc(8*(2*ns+1)); for (size_t i = 0; i < 2*ns; i++) ps[i] = (double)(100 + (long)i); for (size_t i = 0; i < 2*na; i++) out[i] = -5; aa_rx_sg_sub_expand_path(s, 2, all, ps, out); free(ps); }
        else if (!strcmp(api, "center")) { aa_rx_sg_sub_center_configs(s, ns, sub); for (size_t i = 0; i < ns; i++) sub[i] *= 2; }
        else bad_script("api", api);
        for (size_t i = 0; i < na; i++) { double x = all[i*ia]; if (ia > 1 && i+1 < na) for (size_t j = 1; j < ia; j++) if (all[i*ia+j] != -7) x = -999; all[i] = x; }
        for (size_t i = 0; i < ns; i++) { double x = sub[i*is]; if (is > 1 && i+1 < ns) for (size_t j = 1; j < is; j++) if (sub[i*is+j] != -7) x = -999; sub[i] = x; }
        jdarr("all", all, na, 1, 0); jdarr("sub", sub, ns, 1, 0); jdarr("path", out, !strcmp(api, "path") ? 2*na : 0, 1, 0); jl("}"); jflush(); free(all); free(sub); free(out);
    }
    else if (!strcmp(op, "subfk")) { /* subfk g k (n d)*all (n d)*sub : fk at all, then only the chain moved to sub */
        long k = ti(2); if (k < 1 || k > NS || SG[k-1] != h) bad_script("sub", op); struct aa_rx_sg_sub *s = S[k-1];
        double q[256], q2[256], qs[256], P[12]; size_t nq = readcfg(g, 3, q), nf = aa_rx_sg_frame_count(g), ns = aa_rx_sg_sub_config_count(s); readcfg(g, 3 + 2*(int)nq, q2);
        for (size_t i = 0; i < ns; i++) qs[2*i] = q2[aa_rx_sg_sub_config(s, i)];
        struct aa_dvec v, vs; aa_dvec_view(&v, nq, q, 1); aa_dvec_view(&vs, ns, qs, 2);
        struct aa_rx_fk *fk = aa_rx_fk_malloc(g); aa_rx_fk_all(fk, &v); aa_rx_fk_sub(fk, s, &vs);
        jl("{\"op\":\"subfk\",\"g\":%ld,\"k\":%ld", h, k); logcfg(nq, 3); jl(",\"q2\":["); for (size_t i = 0; i < nq; i++) jl("%s[%ld,%ld]", i ? "," : "", ti(3 + 2*(int)(nq+i)), ti(4 + 2*(int)(nq+i)));
        jl("],\"abs\":["); for (size_t i = 0; i < nf; i++) { su_qutr2p(aa_rx_fk_data(fk) + i*aa_rx_fk_ld(fk), P); pose(P, i == 0); } jl("]}"); jflush(); aa_rx_fk_destroy(fk);
    }
    else if (!strcmp(op, "jac")) { /* jac g k api pad (n d)* */
        long k = ti(2); if (k < 1 || k > NS || SG[k-1] != h) bad_script("sub", op); struct aa_rx_sg_sub *s = S[k-1]; const char *api = ts(3); size_t pad = (size_t)ti(4);
        double q[256]; size_t nq = readcfg(g, 5, q), nf = aa_rx_sg_frame_count(g), nc = aa_rx_sg_sub_config_count(s), ld = 6 + pad, ldt = 7 + pad;
        if (nc == 0) return; /* an empty matrix block is an argument error in amino */
        struct aa_dvec v; aa_dvec_view(&v, nq, q, 1); struct aa_mem_region *reg = aa_mem_region_create(256);
        struct aa_rx_fk *fk = aa_rx_fk_malloc(g); aa_rx_fk_all(fk, &v);
        double *TF = calloc(ldt*nf+1, 8), *J = malloc(8*(ld*nc+1)); for (size_t i = 0; i < nf; i++) memcpy(TF + i*ldt, aa_rx_fk_ref(fk, (aa_rx_frame_id)i), 56);
        for (size_t i = 0; i < ld*nc; i++) J[i] = -77;
        struct aa_dmat m, mt, *mr = NULL; aa_dmat_view(&m, 6, nc, J, ld); aa_dmat_view(&mt, 7, nf, TF, ldt); const char *kind = "vel";
        if (!strcmp(api, "jacobian")) aa_rx_sg_sub_jacobian(s, nf, TF, ldt, J, ld);
        else if (!strcmp(api, "get")) mr = aa_rx_sg_sub_get_jacobian(s, reg, &mt);
        else if (!strcmp(api, "velget")) mr = aa_rx_sg_sub_jac_vel_get(s, reg, fk);
        else if (!strcmp(api, "velfill")) aa_rx_sg_sub_jac_vel_fill(s, fk, &m);
        else if (!strcmp(api, "velfill2")) { struct aa_dmat a, b; aa_dmat_view_block(&a, &m, 3, 0, 3, nc); aa_dmat_view_block(&b, &m, 0, 0, 3, nc); aa_rx_sg_sub_jac_vel_fill2(s, fk, &a, &b); }
        else if (!strcmp(api, "twistget")) { kind = "twist"; mr = aa_rx_sg_sub_jac_twist_get(s, reg, fk); }
        else if (!strcmp(api, "twistfill")) { kind = "twist"; aa_rx_sg_sub_jac_twist_fill(s, fk, &m); }
        else if (!strcmp(api, "twistfill2")) { kind = "twist"; struct aa_dmat a, b; aa_dmat_view_block(&a, &m, 3, 0, 3, nc); aa_dmat_view_block(&b, &m, 0, 0, 3, nc); aa_rx_sg_sub_jac_twist_fill2(s, fk, &a, &b); }
        else bad_script("api", api);
        int ok = 1; if (mr) { if (mr->rows != 6 || mr->cols != nc) ok = 0; else for (size_t j = 0; j < nc; j++) for (size_t i = 0; i < 6; i++) J[j*ld+i] = AA_DMAT_REF(mr, i, j); }
        for (size_t j = 0; j < nc; j++) for (size_t i = 6; i < ld; i++) if (J[j*ld+i] != -77) ok = 0;
        jl("{\"op\":\"jac\",\"g\":%ld,\"k\":%ld,\"kind\":\"%s\",\"api\":\"%s\",\"ok\":%d", h, k, kind, api, ok); logcfg(nq, 5); jl(",\"J\":[");
        for (size_t j = 0; j < nc; j++) { jl("%s[", j ? "," : ""); for (size_t i = 0; i < 6; i++) jl("%s%ld", i ? "," : "", q_rnd(J[j*ld+i], 1e5)); jl("]"); } jl("]}"); jflush();
        free(TF); free(J); aa_rx_fk_destroy(fk); aa_mem_region_destroy(reg);
    }
    else if (!strcmp(op, "randcfg")) { /* random configurations respect the position limits */
        long k = ti(2); if (k < 1 || k > NS || SG[k-1] != h) bad_script("sub", op); struct aa_rx_sg_sub *s = S[k-1]; size_t ns = aa_rx_sg_sub_config_count(s); double q[256];
        for (int rep = 0; rep < 20; rep++) { struct aa_dvec v; aa_dvec_view(&v, ns, q, 1); aa_rx_sg_sub_rand_config(s, &v); jl("{\"op\":\"randcfg\",\"g\":%ld,\"k\":%ld", h, k); jdarr("x", q, ns, 1e5, -1); jl("}"); jflush(); }
    }
    else bad_script("op", op);
}
#ifndef SCENE_NO_MAIN
DRV_MAIN
#endif
