/* Wavefront OBJ and MTL files: texts are written line by line together with what each line means. */
#include "amino.h"
#include "amino/rx/wavefront.h"
#include <unistd.h>
#include <sys/stat.h>
#include "drv.h"
extern size_t __sanitizer_get_current_allocated_bytes(void);
AA_API double aa_rx_wf_material_get_specular_weight(const struct aa_rx_wf_material *);
static char ROOT[256]; static FILE *OUT; static int PENDNL;
static void rmfiles(void) { const char *n[] = {"a.obj", "b.obj", "m.mtl", "n.mtl"}, *d[] = {"", "d/"}; char b[400];
    for (int i = 0; i < 4; i++) for (int j = 0; j < 2; j++) { snprintf(b, sizeof b, "%s/%s%s", ROOT, d[j], n[i]); unlink(b); } }
static void trace_begin(void) { char b[300];
    if (!*ROOT) { const char *t = getenv("VERIF_TMP"); snprintf(ROOT, sizeof ROOT, "%s/wfXXXXXX", t ? t : "/tmp"); if (!mkdtemp(ROOT)) exit(3); snprintf(b, sizeof b, "%s/d", ROOT); mkdir(b, 0700); }
    rmfiles(); OUT = NULL; PENDNL = 0; }
static void finish(int nl) { if (OUT) { if (PENDNL && nl) fputc('\n', OUT); fclose(OUT); OUT = NULL; } PENDNL = 0; }
static void trace_end(void) { finish(1); rmfiles(); }
static const char *path(int d, const char *n) { static char b[400]; snprintf(b, sizeof b, "%s/%s%s", ROOT, d ? "d/" : "", n); return b; }
static void jnum(const double *v, size_t n) { jl("["); for (size_t i = 0; i < n; i++) jl("%s%ld", i ? "," : "", q_rnd(v[i], 1e6)); jl("]"); }
static void jint(const char *k, const int32_t *v, size_t n) { jl(",\"%s\":[", k); for (size_t i = 0; i < n; i++) jl("%s%ld", i ? "," : "", (long)v[i]); jl("]"); }
static void jmtl(const struct aa_rx_wf_mtl *m) {
    size_t n = aa_rx_wf_mtl_material_count(m);
    jl("[");
    for (size_t i = 0; i < n; i++) {
        const struct aa_rx_wf_material *x = aa_rx_wf_mtl_get_material(m, i);
        jl("%s{\"name\":\"%s\"", i ? "," : "", x ? aa_rx_wf_material_get_name(x) : "?null");
        if (x) {
#define V3(key, what) jl(",\"" key "\":"); if (aa_rx_wf_material_has_##what(x)) jnum(aa_rx_wf_material_get_##what(x), 3); else jl("[]");
#define V1(key, what) jl(",\"" key "\":"); if (aa_rx_wf_material_has_##what(x)) { double v_ = aa_rx_wf_material_get_##what(x); jnum(&v_, 1); } else jl("[]");
            V3("Ka", ambient) V3("Kd", diffuse) V3("Ks", specular) V3("Ke", emission) V1("Ns", specular_weight) V1("Ni", ior) V1("d", alpha)
        }
        jl("}");
    }
    jl("]");
    jl(",\"%s\":%d", "over", aa_rx_wf_mtl_get_material(m, n) == NULL && aa_rx_wf_mtl_get_material(m, n + 1) == NULL);
}
static void trace_cmd(void) {
    const char *op = TOK[0];
    if (!strcmp(op, "file")) { /* file dir name kind */
        finish(1); OUT = fopen(path((int)ti(1), ts(2)), "w"); if (!OUT) exit(3);
        jl("{\"op\":\"file\",\"d\":%ld,\"n\":\"%s\",\"t\":\"%s\"}", ti(1), ts(2), ts(3)); jflush();
    } else if (!strcmp(op, "line")) { /* line text meaning : \s blank, \t tab, \n newline */
        if (!OUT) bad_script("no file", op);
        if (PENDNL) fputc('\n', OUT);
        const char *p = ts(1);
        if (strcmp(p, "\\0")) for (; *p; p++) { if (*p == '\\') { p++; fputc(*p == 's' ? ' ' : *p == 't' ? '\t' : *p == 'n' ? '\n' : *p, OUT); } else fputc(*p, OUT); }
        PENDNL = 1; jl("{\"op\":\"line\",\"s\":%s}", ts(2)); jflush();
    } else if (!strcmp(op, "toks")) { /* toks nl tok ... : a whole file b.obj */
        finish(1); FILE *f = fopen(path(0, "b.obj"), "w"); if (!f) exit(3);
        jl("{\"op\":\"toks\",\"toks\":[");
        for (int i = 2; i < NTOK; i++) { const char *t = TOK[i]; jl("%s\"%s\"", i > 2 ? "," : "", t);
            if (!strcmp(t, "NL")) fputc('\n', f); else { fputs(!strcmp(t, "u") ? "usemtl" : t, f); if (i + 1 < NTOK && strcmp(TOK[i + 1], "NL")) fputc(' ', f); } }
        if (ti(1)) fputc('\n', f);
        fclose(f); jl("]}"); jflush();
    } else if (!strcmp(op, "done")) { finish((int)ti(1)); jl("{\"op\":\"done\",\"nl\":%ld}", ti(1)); jflush(); }
    else if (!strcmp(op, "obj")) {
        char fn[400]; strcpy(fn, path((int)ti(1), ts(2)));
        long leak = 0;
        for (int k = 0; k < 2; k++) { size_t b = __sanitizer_get_current_allocated_bytes(); struct aa_rx_wf_obj *o = aa_rx_wf_parse(fn); if (o) aa_rx_wf_obj_destroy(o); leak = (long)(__sanitizer_get_current_allocated_bytes() - b); }
        struct aa_rx_wf_obj *o = aa_rx_wf_parse(fn);
        jl("{\"op\":\"obj\",\"d\":%ld,\"n\":\"%s\",\"leak\":%ld,\"ok\":%d", ti(1), ts(2), leak, o != NULL);
        if (o) {
            const double *v; const int32_t *x; size_t n;
            aa_rx_wf_obj_get_vertices(o, &v, &n); jl(",\"v\":"); jnum(v, n);
            aa_rx_wf_obj_get_normals(o, &v, &n); jl(",\"vn\":"); jnum(v, n);
            aa_rx_wf_obj_get_vertex_indices(o, &x, &n); jint("vi", x, n);
            aa_rx_wf_obj_get_normal_indices(o, &x, &n); jint("ni", x, n);
            aa_rx_wf_obj_get_uv_indices(o, &x, &n); jint("ui", x, n);
            aa_rx_wf_obj_get_texture_indices(o, &x, &n); jint("mi", x, n);
            n = aa_rx_wf_obj_material_count(o); int over = !aa_rx_wf_obj_get_material_name(o, n) && !aa_rx_wf_obj_get_material_name(o, n + 3);
            jl(",\"mats\":["); for (size_t i = 0; i < n; i++) jl("%s\"%s\"", i ? "," : "", aa_rx_wf_obj_get_material_name(o, i)); jl("]");
            n = aa_rx_wf_obj_mtl_count(o); over = over && !aa_rx_wf_obj_get_mtl(o, n) && !aa_rx_wf_obj_get_mtl_filename(o, n) && !aa_rx_wf_obj_get_mtl(o, n + 2);
            jl(",\"libs\":["); for (size_t i = 0; i < n; i++) { jl("%s{\"f\":\"%s\",\"m\":", i ? "," : "", aa_rx_wf_obj_get_mtl_filename(o, i)); const struct aa_rx_wf_mtl *m = aa_rx_wf_obj_get_mtl(o, i); if (m) jmtl(m); else jl("[]"); jl("}"); } jl("]");
            jl(",\"over\":%d", over);
            aa_rx_wf_obj_destroy(o);
        }
        jl("}"); jflush();
    } else if (!strcmp(op, "mtl")) {
        char fn[400]; strcpy(fn, path((int)ti(1), ts(2)));
        long leak = 0;
        for (int k = 0; k < 2; k++) { size_t b = __sanitizer_get_current_allocated_bytes(); struct aa_rx_wf_mtl *o = aa_rx_wf_mtl_parse(fn); if (o) aa_rx_wf_mtl_destroy(o); leak = (long)(__sanitizer_get_current_allocated_bytes() - b); }
        struct aa_rx_wf_mtl *o = aa_rx_wf_mtl_parse(fn);
        jl("{\"op\":\"mtl\",\"d\":%ld,\"n\":\"%s\",\"leak\":%ld,\"ok\":%d", ti(1), ts(2), leak, o != NULL);
        if (o) { jl(",\"m\":"); jmtl(o); aa_rx_wf_mtl_destroy(o); }
        jl("}"); jflush();
    } else bad_script("op", op);
}
DRV_MAIN
