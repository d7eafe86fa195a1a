/* Point lists, trajectories and limits. */
#include "amino.h"
#include "amino/ct/state.h"
#include "amino/ct/traj.h"
#include "amino/rx/rxtype.h"
#include "amino/rx/scenegraph.h"
#include "amino/rx/rx_ct.h"
#include "drv.h"
#define NJ 4
#define MP 16
static struct aa_mem_region reg; static struct aa_ct_pt_list *L; static struct aa_ct_seg_list *S; static int N, kind, np; static double PT[2*MP][2*NJ+1], XP[MP][7];
static int lo, hi; static double vmin[8], vmax[8], amin[8], amax[8], T;
static struct aa_ct_state smin, smax; static struct aa_ct_limit lim;
static void trace_begin(void) { aa_mem_region_init(&reg, 256); L = NULL; S = NULL; N = 0; np = 0; lo = hi = MP; lim.min = &smin; lim.max = &smax; for (int i = 0; i < 8; i++) { vmin[i] = amin[i] = -1; vmax[i] = amax[i] = 1; } }
static void trace_end(void) { if (L) aa_ct_pt_list_destroy(L); if (S) aa_ct_seg_list_destroy(S); aa_mem_region_destroy(&reg); }
static struct aa_ct_seg_list *gen(struct aa_ct_pt_list *l) {
    memset(&smin, 0, sizeof smin); memset(&smax, 0, sizeof smax); smin.n_q = smax.n_q = (size_t)N; smin.dq = smin.dX = vmin; smin.ddq = smin.ddX = amin; smax.dq = smax.dX = vmax; smax.ddq = smax.ddX = amax;
    return kind == 0 ? aa_ct_tjq_lin_generate(&reg, l, &lim) : kind == 1 ? aa_ct_tjq_trap_generate(&reg, l, &lim) : kind == 2 ? aa_ct_tjq_pb_generate(&reg, l, &lim) : kind == 3 ? aa_ct_tjx_slerp_generate(&reg, l) : aa_ct_tjX_pb_generate(&reg, l, &lim);
}
static int ev(double t, double *q, double *dq) { struct aa_ct_state s; memset(&s, 0, sizeof s); s.n_q = (size_t)N; double dd[8]; s.q = q; s.dq = dq; s.ddq = dd; return aa_ct_seg_list_eval(S, &s, t); }
static int evX(double t, double *X, double *dX) { struct aa_ct_state s; memset(&s, 0, sizeof s); s.X = X; s.dX = dX; return aa_ct_seg_list_eval(S, &s, t); }
/* the driver's own quaternions */
static void qm(const double *a, const double *b, double *c) { double r[4] = { a[3]*b[0]+a[0]*b[3]+a[1]*b[2]-a[2]*b[1], a[3]*b[1]+a[1]*b[3]+a[2]*b[0]-a[0]*b[2], a[3]*b[2]+a[2]*b[3]+a[0]*b[1]-a[1]*b[0], a[3]*b[3]-a[0]*b[0]-a[1]*b[1]-a[2]*b[2] }; memcpy(c, r, sizeof r); }
static void rel(const double *a, const double *b, double *w) { /* rotation vector of a*conj(b), short way */ double c[4] = {-b[0], -b[1], -b[2], b[3]}, r[4]; qm(a, c, r); double n = sqrt(r[0]*r[0]+r[1]*r[1]+r[2]*r[2]); double an = 2*atan2(n, fabs(r[3])); double f = n > 1e-300 ? (r[3] < 0 ? -an : an)/n : 0; for (int i = 0; i < 3; i++) w[i] = f*r[i]; }
static double nrm3(const double *w) { return sqrt(w[0]*w[0]+w[1]*w[1]+w[2]*w[2]); }
static void rotq(long ax, double deg, double *q) { q[0] = q[1] = q[2] = 0; q[ax] = sin(deg*M_PI/360); q[3] = cos(deg*M_PI/360); }
struct rec { int n, stop, code; double t[512]; double q[512][NJ]; };
static int fn(void *cx, double t, const struct aa_ct_state *s) { struct rec *r = cx; if (r->n >= 512) return -77; r->t[r->n] = t; for (int i = 0; i < N; i++) r->q[r->n][i] = s->q[i]; r->n++; return r->n == r->stop ? r->code : 0; }
static void rdump(const char *tag, char *b) { /* numbers of all lines starting with tag */
    size_t tl = strlen(tag); jl(",\"%s\":[", tag); int first = 1; for (char *l = b; l && *l; ) { char *e = strchr(l, '\n'); if (!strncmp(l, tag, tl) && l[tl] == ':') { jl("%s[", first ? "" : ","); first = 0; int f2 = 1; char *p = l + tl + 1; while (p < (e ? e : p + strlen(p))) { char *x; double v = strtod(p, &x); if (x == p || (e && x > e)) break; jl("%s%ld", f2 ? "" : ",", q_int(v, 1, 1e-6)); f2 = 0; p = x; } jl("]"); } l = e ? e + 1 : NULL; }
    jl("]");
}
static void trace_cmd(void) {
    struct aa_mem_region *lr = aa_mem_region_local_get(); void *top = aa_mem_region_ptr(lr); const char *op = TOK[0]; int g = 1;
    jl("{\"op\":\"%s\",\"a\":[", op); for (int i = 1; i < NTOK; i++) jl("%s%ld", i > 1 ? "," : "", ti(i)); jl("]");
    if (!strcmp(op, "list")) { N = (int)ti(1); L = aa_ct_pt_list_create(&reg); jl(",\"n\":%zu", aa_ct_pt_list_size(L)); }
    else if (!strcmp(op, "add")) { /* how q.. [dq..] */
        int how = (int)ti(1); double *q = malloc(sizeof(double)*NJ), *dq = malloc(sizeof(double)*NJ), *ef = malloc(sizeof(double)*NJ); for (int i = 0; i < N; i++) { q[i] = td(2+i); dq[i] = (how & 2) ? td(2+N+i) : 0; ef[i] = how + i; }
        struct aa_ct_state *s = malloc(sizeof *s); memset(s, 0, sizeof *s); s->n_q = (size_t)N; s->q = q; if (how & 2) s->dq = dq; if (how & 4) s->eff = ef;
        if (how & 1) aa_ct_pt_list_add_front(L, s); else if (how == 0) aa_ct_pt_list_add_q(L, (size_t)N, q); else aa_ct_pt_list_add(L, s);
        double row[2*NJ+1] = {0}; memcpy(row, q, sizeof(double)*(size_t)N); row[2*NJ] = (how & 2) != 0; if (how & 2) memcpy(row+NJ, dq, sizeof(double)*(size_t)N);
        if (how & 1) { if (lo == hi || memcmp(PT[lo], row, sizeof row)) memcpy(PT[--lo], row, sizeof row); } else if (lo == hi || memcmp(PT[hi-1], row, sizeof row)) memcpy(PT[hi++], row, sizeof row);
        free(q); free(dq); free(ef); free(s); jl(",\"n\":%zu", aa_ct_pt_list_size(L));
    } else if (!strcmp(op, "addX")) { double *X = malloc(56), a[4], b[4]; rotq(ti(1), td(2), a); rotq(ti(3), td(4), b); qm(a, b, X); if (ti(8)) for (int i = 0; i < 4; i++) X[i] = -X[i]; for (int i = 0; i < 3; i++) X[4+i] = td(5+i); memcpy(XP[np++], X, 56); aa_ct_pt_list_add_qutr(L, X); free(X); jl(",\"n\":%zu", aa_ct_pt_list_size(L)); }
    else if (!strcmp(op, "path")) { int n = (int)ti(1), m = (int)ti(2); double *p = malloc(sizeof(double)*(size_t)(n*m)); for (int i = 0; i < n*m; i++) p[i] = td(3+i); N = n; L = aa_rx_ct_pt_list(&reg, (size_t)n, (size_t)m, p);
        for (int i = 0; i < m; i++) { double row[2*NJ+1] = {0}; memcpy(row, p+i*n, sizeof(double)*(size_t)n); if (lo == hi || memcmp(PT[hi-1], row, sizeof row)) memcpy(PT[hi++], row, sizeof row); }
        free(p); jl(",\"n\":%zu", aa_ct_pt_list_size(L)); }
    else if (!strcmp(op, "dump")) { char *b = NULL; size_t z = 0; FILE *f = open_memstream(&b, &z); aa_ct_pt_list_dump(f, L); fclose(f); rdump("q", b); rdump("dq", b); rdump("eff", b); free(b); jl(",\"n\":%zu", aa_ct_pt_list_size(L)); jdarr("s", aa_ct_pt_list_start_state(L)->q, (size_t)N, 1, 1e-9); jdarr("f", aa_ct_pt_list_final_state(L)->q, (size_t)N, 1, 1e-9); }
    else if (!strcmp(op, "lim")) { int n = (NTOK-1)/4; for (int i = 0; i < n; i++) { vmin[i] = td(1+i); vmax[i] = td(1+n+i); amin[i] = td(1+2*n+i); amax[i] = td(1+3*n+i); } }
    else if (!strcmp(op, "gen")) { /* kind kill */
        kind = (int)ti(1); S = gen(L); jl(",\"null\":%d", S == NULL); double pre[MP], w[MP*NJ]; int m = hi - lo;
        if (S) { T = aa_ct_seg_list_duration(S); 
            if (kind <= 2) { struct aa_ct_seg_list *keep = S; for (int k = 2; k <= m; k++) { struct aa_ct_pt_list *l = aa_ct_pt_list_create(&reg); for (int i = 0; i < k; i++) { struct aa_ct_state x; memset(&x, 0, sizeof x); x.n_q = (size_t)N; x.q = PT[lo+i]; if (PT[lo+i][2*NJ]) x.dq = PT[lo+i]+NJ; aa_ct_pt_list_add(l, &x); } struct aa_ct_seg_list *s = gen(l); pre[k-2] = aa_ct_seg_list_duration(s); aa_ct_seg_list_destroy(s); aa_ct_pt_list_destroy(l); }
                for (int k = 2; k <= m; k++) { double q[NJ], dq[NJ]; for (int i = 0; i < N; i++) q[i] = 777; ev(pre[k-2]*(k == m ? 1-1e-12 : 1), q, dq); memcpy(w+(k-2)*N, q, sizeof(double)*(size_t)N); } S = keep; }
            if (kind != 2 && ti(2)) { aa_ct_pt_list_destroy(L); L = NULL; }
            jl(",\"nq\":%ld,\"T\":%ld,\"T12\":%ld", kind == 3 ? -1 : (long)aa_ct_seg_list_n_q(S), q_rnd(T, 1000), q_rnd(T, 12000)); if (kind <= 2) { jdarr("pre", pre, (size_t)(m-1), 1000, -1); jdarr("w", w, (size_t)((m-1)*N), 1000, -1); } }
    } else if (!strcmp(op, "ev")) { double t = ti(1) == 64 ? T*(1-1e-12) : T*td(1)/64; if (ti(1) < 0) t = -.125; if (ti(1) > 64) t = T + .125;
        double q[8], dq[8], q2[8], q3[8], dq3[8], q4[8], dq4[8], dd[8]; for (int i = 0; i < 8; i++) q[i] = dq[i] = q2[i] = q3[i] = dq3[i] = q4[i] = dq4[i] = dd[i] = 777;
        int r = ev(t, q, dq), r2 = aa_ct_seg_list_eval_q(S, t, (size_t)N, q2), r3 = aa_ct_seg_list_eval_dq(S, t, (size_t)N, q3, dq3); struct aa_ct_state s; memset(&s, 0, sizeof s); s.n_q = (size_t)N; s.q = q4; s.ddq = dd; int r4 = aa_ct_seg_list_eval(S, &s, t); s.q = NULL; s.dq = dq4; int r5 = aa_ct_seg_list_eval(S, &s, t);
        if (r != r2 || r != r3 || r != r4 || r != r5) g = 0;
        if (r) for (int i = 0; i < 8; i++) if (q[i] != q2[i] || q[i] != q3[i] || q[i] != q4[i] || dq[i] != dq3[i] || dq[i] != dq4[i] || (i >= N && (q[i] != 777 || dq[i] != 777 || dd[i] != 777))) g = 0;
        jl(",\"r\":%d", r != 0); if (r) { jdarr("q", q, (size_t)N, 1000, -1); jdarr("dq", dq, (size_t)N, 1000, -1); }
    } else if (!strcmp(op, "fine")) { int n = (int)ti(1); double h = T/n, a[NJ], b[NJ], da[NJ], db[NJ], m[8][NJ]; for (int i = 0; i < NJ; i++) { m[0][i] = m[2][i] = m[4][i] = -1e9; m[1][i] = m[3][i] = m[5][i] = 1e9; m[6][i] = 0; }
        ev(0, a, da); jdarr("q0", a, (size_t)N, 1000, -1); jdarr("d0", da, (size_t)N, 1000, -1);
        for (int k = 1; k <= n; k++) { for (int i = 0; i < NJ; i++) b[i] = db[i] = NAN; if (!ev(k == n ? T*(1-1e-12) : h*k, b, db)) g = 0;
            for (int i = 0; i < N; i++) { double fd = (b[i]-a[i])/h, ac = (db[i]-da[i])/h, er = fabs(b[i]-a[i]-h*(da[i]+db[i])/2)/h/h; if (isnan(fd) || isnan(ac)) g = 0; m[0][i] = fmax(m[0][i], fd); m[1][i] = fmin(m[1][i], fd); m[2][i] = fmax(m[2][i], db[i]); m[3][i] = fmin(m[3][i], db[i]); m[4][i] = fmax(m[4][i], ac); m[5][i] = fmin(m[5][i], ac); m[6][i] = fmax(m[6][i], er); }
            memcpy(a, b, sizeof a); memcpy(da, db, sizeof da); }
        jdarr("qT", a, (size_t)N, 1000, -1); jdarr("dT", da, (size_t)N, 1000, -1); static const char *nm[] = {"fdx", "fdn", "vx", "vn", "ax", "an", "er"}; for (int j = 0; j < 7; j++) jdarr(nm[j], m[j], (size_t)N, 1000, -1);
    } else if (!strcmp(op, "check")) { /* dt/48 stop code */
        static struct rec r; memset(&r, 0, sizeof r); r.stop = (int)ti(2); r.code = (int)ti(3); double dt = td(1)/48; int rc = aa_ct_seg_list_check(S, dt, fn, &r); int same = 1;
        for (int i = 0; i < r.n; i++) { double q[NJ], dq[NJ]; if (fabs(r.t[i] - i*dt) > 1e-9) same = 0; ev(r.t[i], q, dq); if (memcmp(q, r.q[i], sizeof(double)*(size_t)N)) same = 0; }
        jl(",\"r\":%d,\"n\":%d,\"same\":%d,\"exp\":[%ld,%ld]", rc, r.n, same, (long)floor(T/dt - 1e-6) + 1, (long)floor(T/dt + 1e-6) + 1);
    } else if (!strcmp(op, "c0")) { jl(",\"r\":%d", aa_ct_seg_list_check_c0(S, td(1)/48, td(2)/1000, 1e-6)); }
    else if (!strcmp(op, "evX")) { double t = ti(1) == 64 ? T*(1-1e-12) : T*td(1)/64; if (ti(1) < 0) t = -.125; if (ti(1) > 64) t = T + .125;
        double X[9], dX[8], A[7], B[7], fd[6]; for (int i = 0; i < 9; i++) X[i] = 777; for (int i = 0; i < 8; i++) dX[i] = 777; int r = evX(t, X, dX); jl(",\"r\":%d", r != 0);
        if (r) { double w[3]; rel(X, XP[0], w); jdarr("w", w, 3, 1000, -1); rel(X, XP[np-1], w); jdarr("u", w, 3, 1000, -1); jdarr("p", X+4, 3, 1000, -1); if (fabs(X[0]*X[0]+X[1]*X[1]+X[2]*X[2]+X[3]*X[3]-1) > 1e-9 || X[7] != 777) g = 0;
            double h = 1e-4; if (ti(1) > 0 && ti(1) < 64 && kind == 3) { evX(t-h, A, NULL); evX(t+h, B, NULL); rel(B, A, fd+3); for (int i = 0; i < 3; i++) { fd[3+i] /= 2*h; fd[i] = (B[4+i]-A[4+i])/2/h; } jdarr("dX", dX, 6, 1000, -1); jdarr("fd", fd, 6, 1000, -1); if (dX[6] != 777) g = 0; } }
    } else if (!strcmp(op, "fineX")) { int n = (int)ti(1); double h = T/n, A[7], B[7], dB[6], w[3], m[4] = {0}, z[3]; evX(0, A, dB); rel(A, XP[0], w); z[0] = nrm3(w); for (int i = 0; i < 3; i++) z[0] = fmax(z[0], fabs(A[4+i]-XP[0][4+i]));
        for (int k = 1; k <= n; k++) { for (int i = 0; i < 7; i++) B[i] = NAN; if (!evX(k == n ? T*(1-1e-12) : h*k, B, dB)) g = 0; rel(B, A, w); m[3] = fmax(m[3], nrm3(w)/h); for (int i = 0; i < 3; i++) m[i] = fmax(m[i], fabs(B[4+i]-A[4+i])/h); double q2 = B[0]*B[0]+B[1]*B[1]+B[2]*B[2]+B[3]*B[3]; if (!(fabs(q2-1) < 1e-9)) g = 0; memcpy(A, B, sizeof A); }
        rel(A, XP[np-1], w); z[1] = nrm3(w); for (int i = 0; i < 3; i++) z[1] = fmax(z[1], fabs(A[4+i]-XP[np-1][4+i])); jdarr("z", z, 2, 1000, -1); jdarr("m", m, 4, 1000, -1);
    } else if (!strcmp(op, "lims")) { /* which n ; per joint: mask pos(2) vel(2) acc(2) eff(2) */
        int n = (int)ti(2), k = 3; struct aa_rx_sg *sg = aa_rx_sg_create(); double qz[4] = {0,0,0,1}, v[3] = {0}, ax[3] = {1,0,0}; char nm[8][8];
        for (int i = 0; i < n; i++) { snprintf(nm[i], 8, "j%d", i); aa_rx_sg_add_frame_revolute(sg, i ? nm[i-1] : "", nm[i], qz, v, nm[i], ax, 0); long mk = ti(k++); for (int f = 0; f < 4; f++, k += 2) if (mk >> f & 1) { if (f == 0) aa_rx_sg_set_limit_pos(sg, nm[i], td(k), td(k+1)); else if (f == 1) aa_rx_sg_set_limit_vel(sg, nm[i], td(k), td(k+1)); else if (f == 2) aa_rx_sg_set_limit_acc(sg, nm[i], td(k), td(k+1)); else aa_rx_sg_set_limit_eff(sg, nm[i], td(k), td(k+1)); } }
        aa_rx_sg_init(sg); struct aa_ct_limit *l = ti(1) ? aa_rx_ct_sg_limits(&reg, sg) : aa_rx_ct_limits(&reg, sg); jl(",\"x\":[");
        for (int i = 0; i < n; i++) { aa_rx_config_id c = aa_rx_sg_config_id(sg, nm[i]); double *o[8] = {l->min->q, l->max->q, l->min->dq, l->max->dq, l->min->ddq, l->max->ddq, l->min->eff, l->max->eff}; for (int f = 0; f < 8; f++) jl("%s%ld", i || f ? "," : "", isinf(o[f][c]) ? (o[f][c] > 0 ? 99999 : -99999) : q_int(o[f][c], 1, 1e-9)); }
        jl("]"); aa_rx_sg_destroy(sg);
    } else if (!strcmp(op, "state")) { int nq = (int)ti(1), nt = (int)ti(2); struct aa_ct_state *s = aa_ct_state_alloc(&reg, (size_t)nq, (size_t)nt), d; for (int i = 0; i < nq; i++) if (s->q[i] != 0 || s->dq[i] != 0 || s->ddq[i] != 0) g = 0;
        double *f[9] = {s->q, s->dq, s->ddq, s->eff, s->X, s->dX, s->ddX, s->TF_abs, s->TF_rel}; int z[9] = {nq, nq, nq, nq, 7, 6, 6, 7*nt, 7*nt}; for (int j = 0; j < 9; j++) for (int i = 0; i < z[j]; i++) f[j][i] = 100*(j+1)+i;
        long mask = ti(3); if (mask & 1) s->q = NULL; if (mask & 2) s->eff = NULL; if (mask & 4) s->ddX = NULL; if (mask & 8) s->TF_rel = NULL;
        aa_ct_state_clone(&reg, &d, s); jl(",\"eq\":%d", aa_ct_state_eq(&d, s) != 0); for (int j = 0; j < 9; j++) for (int i = 0; i < z[j]; i++) { if (f[j][i] != 100*(j+1)+i) g = 0; f[j][i] = -1; }
        double *c[9] = {d.q, d.dq, d.ddq, d.eff, d.X, d.dX, d.ddX, d.TF_abs, d.TF_rel}; jl(",\"nn\":[%zu,%zu],\"x\":[", d.n_q, d.n_tf); for (int j = 0; j < 9; j++) { jl("%s[", j ? "," : ""); if (!c[j]) jl("-1"); else for (int i = 0; i < z[j]; i++) jl("%s%ld", i ? "," : "", q_int(c[j][i], 1, 1e-9)); jl("]"); } jl("]");
        char *b = NULL; size_t zz = 0; FILE *fo = open_memstream(&b, &zz); aa_ct_state_dump(fo, &d); fclose(fo); rdump("q", b); rdump("dq", b); rdump("ddq", b); rdump("eff", b); rdump("X", b); rdump("dX", b); rdump("ddX", b); free(b);
        double E[7] = {1,2,3,4,5,6,7}; aa_ct_state_set_qutr(&d, E); jdarr("E", d.X, 7, 1, 1e-9);
    } else if (!strcmp(op, "eq")) { /* n mask1 mask2 field idx delta(1e-9) */
        int n = (int)ti(1); double b[2][6][8]; struct aa_ct_state s[2]; for (int k = 0; k < 2; k++) { memset(&s[k], 0, sizeof s[k]); s[k].n_q = (size_t)n; long m = ti(2+k); double **f[6] = {&s[k].q, &s[k].dq, &s[k].ddq, &s[k].X, &s[k].dX, &s[k].ddX}; for (int j = 0; j < 6; j++) { for (int i = 0; i < 8; i++) b[k][j][i] = j+i; if (m >> j & 1) *f[j] = b[k][j]; } }
        b[1][ti(4)][ti(5)] += td(6)*2.5e-4; jl(",\"r\":%d", aa_ct_state_eq(&s[0], &s[1]) != 0);
    } else bad_script("op", op);
    jl(",\"g\":%d,\"rg\":%d}", g, top == aa_mem_region_ptr(lr)); jflush();
}
DRV_MAIN
