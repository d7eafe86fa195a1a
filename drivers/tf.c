/* SE(3)/SO(3) in every representation: register machine whose registers hold a rigid motion in some representation. */
#include "amino.h"
#include "drv.h"
#include "se3util.h"
enum rep { QUAT, ROTMAT, AXANG, ROTVEC, QUTR, TFMAT, DUQU };
static const char *RN[] = {"quat", "rotmat", "axang", "rotvec", "qutr", "tfmat", "duqu"};
static const size_t RL[] = {4, 9, 4, 3, 7, 12, 8};
#define MAXR 64
static struct { int rep; double *d; } X[MAXR]; static int NX;
void aa_tf_qv_chainnorm(const double *, const double *, const double *, const double *, double *, double *);
void aa_tf_tfmat2qv(const double *, double *, double *);
void aa_tf_qv_svel(const double *, const double *, const double *, const double *, double, double *, double *);
void aa_tf_qv_sdiff(const double *, const double *, const double *, const double *, double, double *, double *);
void aa_tf_qpexp(const double *, double *); void aa_tf_qpow(const double *, double, double *);
void aa_tf_tfmat_diff2vel(const double *, const double *, double *); void aa_tf_tfmat_vel2diff(const double *, const double *, double *);
static void trace_begin(void) { NX = 0; }
static void trace_end(void) { for (int i = 0; i < NX; i++) free(X[i].d); }
static double *nd(size_t n) { double *p = malloc(8 * n); for (size_t i = 0; i < n; i++) p[i] = -1e30; return p; }
static double *newr(int rep) { if (NX >= MAXR) bad_script("regs", TOK[0]); X[NX].rep = rep; X[NX].d = nd(RL[rep]); return X[NX++].d; }
static double *reg(int tok, int rep) { long k = ti(tok); if (k < 1 || k > NX || X[k-1].rep != rep) bad_script("register", TOK[1]); return X[k-1].d; }
static int repno(const char *s) { for (int i = 0; i < 7; i++) if (!strcmp(s, RN[i])) return i; bad_script("rep", s); return 0; }
static void rodrigues(const double k[3], double th, double R[9]) {
    double h[4] = { k[0]*sin(th/2), k[1]*sin(th/2), k[2]*sin(th/2), cos(th/2) }; su_q2m(h, R);
}
/* observation: nine rotation elements + translation; aux = defect of the representation's own constraint */
static double topose(int rep, const double *d, double P[12]) {
    P[9] = P[10] = P[11] = 0;
    switch (rep) {
    case QUAT: su_q2m(d, P); return 0;
    case ROTMAT: memcpy(P, d, 72); return 0;
    case AXANG: { double n = sqrt(d[0]*d[0]+d[1]*d[1]+d[2]*d[2]); rodrigues(d, d[3], P); return (n == 0 && fabs(sin(d[3]/2)) < 1e-12) ? 0 : n - 1; }
    case ROTVEC: { double n = sqrt(d[0]*d[0]+d[1]*d[1]+d[2]*d[2]), k[3] = {1, 0, 0}; if (n > 0) for (int i = 0; i < 3; i++) k[i] = d[i]/n; rodrigues(k, n, P); return 0; }
    case QUTR: su_qutr2p(d, P); return 0;
    case TFMAT: su_tfmat2p(d, P); return 0;
    default: su_duqu2p(d, P); return d[0]*d[4]+d[1]*d[5]+d[2]*d[6]+d[3]*d[7];
    }
}
/* rotation elements at 1e8, translation at 1e6, the constraint defect at 1e7 */
static void obs(const char *key, int rep, const double *d) { double P[12]; double a = topose(rep, d, P); (void)key; jdarr("r", P, 9, 1e8, -1); jdarr("t", P+9, 3, 1e6, -1); jl(",\"aux\":%ld", q_rnd(a, 1e7)); }
/* store an independently built motion q (unit), v */
static void fill(int rep, const double q[4], const double v[3], double *d) {
    switch (rep) {
    case QUAT: memcpy(d, q, 32); break;
    case ROTMAT: su_q2m(q, d); break;
    case AXANG: case ROTVEC: { double s = sqrt(q[0]*q[0]+q[1]*q[1]+q[2]*q[2]), th = 2*atan2(s, q[3]), k[3] = {1, 0, 0};
        if (s > 0) for (int i = 0; i < 3; i++) k[i] = q[i]/s;
        for (int i = 0; i < 3; i++) d[i] = rep == AXANG ? k[i] : k[i]*th; if (rep == AXANG) d[3] = th; break; }
    case QUTR: memcpy(d, q, 32); memcpy(d+4, v, 24); break;
    case TFMAT: su_q2m(q, d); memcpy(d+9, v, 24); break;
    case DUQU: { memcpy(d, q, 32); double x = v[0]/2, y = v[1]/2, z = v[2]/2;
        d[4] = x*q[3] + y*q[2] - z*q[1]; d[5] = y*q[3] + z*q[0] - x*q[2]; d[6] = z*q[3] + x*q[1] - y*q[0]; d[7] = -x*q[0] - y*q[1] - z*q[2]; }
    }
}
static void rdq(int i, double q[4]) { long iq[4]; for (int k = 0; k < 4; k++) iq[k] = ti(i + k); su_iq(iq, q); }
static void rdv(int i, double v[3]) { for (int k = 0; k < 3; k++) v[k] = (double)ti(i + k) / (double)ti(i + 3); }
static void lg4(const char *k, int i) { jl(",\"%s\":[%ld,%ld,%ld,%ld]", k, ti(i), ti(i+1), ti(i+2), ti(i+3)); }
static double ang(int i) { return 2*atan2((double)ti(i), (double)ti(i+1)); }
static void mm(const double *M, size_t ld, const double *x, size_t n, double *y) { for (size_t i = 0; i < n; i++) { y[i] = 0; for (size_t j = 0; j < n; j++) y[i] += M[j*ld+i]*x[j]; } }
static void cross(const double *a, const double *b, double *c) { c[0]=a[1]*b[2]-a[2]*b[1]; c[1]=a[2]*b[0]-a[0]*b[2]; c[2]=a[0]*b[1]-a[1]*b[0]; }
#define IS(n) (!strcmp(api, n))
static void conv(const char *api) {
    int a = 2, r; double *y;
#define C1(name, ra, ry) else if (IS(#name)) { double *x = reg(a, ra); y = newr(r = ry); aa_tf_##name(x, y); }
    if (0) {}
    C1(quat2rotmat, QUAT, ROTMAT) C1(rotmat2quat, ROTMAT, QUAT) C1(quat2axang, QUAT, AXANG) C1(axang2quat, AXANG, QUAT) C1(quat2rotvec, QUAT, ROTVEC)
    C1(rotvec2quat, ROTVEC, QUAT) C1(axang2rotvec, AXANG, ROTVEC) C1(rotvec2axang, ROTVEC, AXANG) C1(rotmat2axang, ROTMAT, AXANG) C1(rotmat2rotvec, ROTMAT, ROTVEC)
    C1(axang2rotmat, AXANG, ROTMAT) C1(rotvec2rotmat, ROTVEC, ROTMAT) C1(rotmat_exp_aa, AXANG, ROTMAT) C1(rotmat_expv, ROTVEC, ROTMAT) C1(rotmat_lnv, ROTMAT, ROTVEC)
    C1(qutr2duqu, QUTR, DUQU) C1(qutr2tfmat, QUTR, TFMAT) C1(tfmat2qutr, TFMAT, QUTR) C1(duqu2qutr, DUQU, QUTR) C1(duqu2tfmat, DUQU, TFMAT) C1(tfmat2duqu, TFMAT, DUQU)
    C1(qminimize2, QUAT, QUAT)
    else if (IS("axang2quat2")) { double *x = reg(a, AXANG); y = newr(r = QUAT); aa_tf_axang2quat2(x, x[3], y); }
    else if (IS("axang2rotmat2")) { double *x = reg(a, AXANG); y = newr(r = ROTMAT); aa_tf_axang2rotmat2(x, x[3], y); }
    else if (IS("qv2duqu")) { double *x = reg(a, QUTR); y = newr(r = DUQU); aa_tf_qv2duqu(x, x+4, y); }
    else if (IS("qv2tfmat")) { double *x = reg(a, QUTR); y = newr(r = TFMAT); aa_tf_qv2tfmat(x, x+4, y); }
    else if (IS("tfmat2qv")) { double *x = reg(a, TFMAT); y = newr(r = QUTR); aa_tf_tfmat2qv(x, y, y+4); }
    else if (IS("duqu2qv")) { double *x = reg(a, DUQU); y = newr(r = QUTR); aa_tf_duqu2qv(x, y, y+4); }
    else if (IS("duqu_trans")) { double *x = reg(a, DUQU); y = newr(r = QUTR); memcpy(y, x, 32); aa_tf_duqu_trans(x, y+4); }
    else if (IS("quat2rotvec_near")) { double *x = reg(a, QUAT), n[3] = {(double)ti(3), (double)ti(4), (double)ti(5)}; y = newr(r = ROTVEC); aa_tf_quat2rotvec_near(x, n, y); }
    else if (IS("rotvec_near")) { double *x = reg(a, ROTVEC), n[3] = {(double)ti(3), (double)ti(4), (double)ti(5)}; y = newr(r = ROTVEC); aa_tf_rotvec_near(x, n, y); }
    else if (IS("axang_permute")) { double *x = reg(a, AXANG); y = newr(r = AXANG); aa_tf_axang_permute(x, (int)ti(3), y); }
    else if (IS("rotvec_permute")) { double *x = reg(a, ROTVEC); y = newr(r = ROTVEC); aa_tf_rotvec_permute(x, (int)ti(3), y); }
    /* normalisation undoes a scaling of the representation */
    else if (IS("qnormalize")) { double *x = reg(a, QUAT); y = newr(r = QUAT); for (int i = 0; i < 4; i++) y[i] = x[i]*(double)ti(3); aa_tf_qnormalize(y); }
    else if (IS("qnormalize2")) { double *x = reg(a, QUAT), t[4]; y = newr(r = QUAT); for (int i = 0; i < 4; i++) t[i] = x[i]*(double)ti(3); aa_tf_qnormalize2(t, y); }
    else if (IS("qminimize")) { double *x = reg(a, QUAT); y = newr(r = QUAT); memcpy(y, x, 32); aa_tf_qminimize(y); }
    else if (IS("duqu_normalize")) { double *x = reg(a, DUQU); y = newr(r = DUQU); for (int i = 0; i < 8; i++) y[i] = x[i]*(double)ti(3); aa_tf_duqu_normalize(y); }
    else if (IS("duqu_minimize")) { double *x = reg(a, DUQU); y = newr(r = DUQU); memcpy(y, x, 64); aa_tf_duqu_minimize(y); }
    else if (IS("axang_normalize")) { double *x = reg(a, AXANG); y = newr(r = AXANG); for (int i = 0; i < 3; i++) y[i] = x[i]*(double)ti(3); y[3] = x[3] + 2*M_PI*(double)ti(4); aa_tf_axang_normalize(y); }
    else if (IS("axang_make")) { double *x = reg(a, AXANG); y = newr(r = AXANG); double s = (double)ti(3); aa_tf_axang_make(x[0]*s, x[1]*s, x[2]*s, x[3], y); }
    else if (IS("rotmat_normalize")) { double *x = reg(a, ROTMAT); y = newr(r = ROTMAT); for (int i = 0; i < 9; i++) y[i] = x[i]*(double)ti(3); aa_tf_rotmat_normalize(y); }
    else if (IS("tfmat_normalize")) { double *x = reg(a, TFMAT); y = newr(r = TFMAT); for (int i = 0; i < 12; i++) y[i] = x[i]*(i < 9 ? (double)ti(3) : 1); aa_tf_tfmat_normalize(y); }
    else { bad_script("conv", api); return; }
    jl("{\"op\":\"conv\",\"api\":\"%s\",\"a\":%ld", api, ti(2)); obs("x", r, y);
    int minw = IS("qminimize") || IS("qminimize2") || IS("duqu_minimize") || IS("rotmat2quat"), pr = IS("rotmat2axang") || IS("rotmat2rotvec") || IS("rotmat_lnv") || IS("axang_normalize") || IS("axang_make");
    double an = r == AXANG ? y[3] : r == ROTVEC ? sqrt(y[0]*y[0]+y[1]*y[1]+y[2]*y[2]) : 0;
    jl(",\"range\":%d}", (minw && y[3] < 0) || (pr && (an < -1e-9 || an > M_PI + 0.02)) ? 0 : 1); jflush();
}
static void binop(const char *op, const char *api) {
    double *y; int r;
#define B1(name, rr) else if (IS(#name)) { double *p = reg(2, rr), *q = reg(3, rr); y = newr(r = rr); aa_tf_##name(p, q, y); }
#define BQV(name) else if (IS(#name)) { double *p = reg(2, QUTR), *q = reg(3, QUTR); y = newr(r = QUTR); aa_tf_##name(p, p+4, q, q+4, y, y+4); }
#define B93(name) else if (IS(#name)) { double *p = reg(2, TFMAT), *q = reg(3, TFMAT); y = newr(r = TFMAT); aa_tf_##name(p, p+9, q, q+9, y, y+9); }
    if (0) {}
    B1(qmul, QUAT) B1(qmulnorm, QUAT) B1(rotmat_mul, ROTMAT) B1(9mul, ROTMAT) B1(qutr_mul, QUTR) B1(qutr_mulnorm, QUTR) B1(tfmat_mul, TFMAT) B1(12chain, TFMAT) B1(duqu_mul, DUQU)
    BQV(qv_chain) BQV(qv_chainnorm) B93(tfmat2_mul) B93(93chain)
    B1(qcmul, QUAT) B1(qutr_cmul, QUTR) B1(duqu_cmul, DUQU) B1(12rel, TFMAT) B93(93rel)
    B1(qmulc, QUAT) B1(qutr_mulc, QUTR) B1(duqu_mulc, DUQU) B1(qrel, QUAT) B1(9rel, ROTMAT)
    else if (IS("v9mul")) { double *p = reg(2, ROTMAT), *q = reg(3, ROTMAT), I[9] = {1,0,0,0,1,0,0,0,1}; y = newr(r = ROTMAT); if (ti(4)) aa_tf_v9mul(y, I, p, q, I, NULL); else aa_tf_v9mul(y, p, q, NULL); }
    else if (IS("v12chain")) { double *p = reg(2, TFMAT), *q = reg(3, TFMAT), I[12] = {1,0,0,0,1,0,0,0,1,0,0,0}; y = newr(r = TFMAT); if (ti(4)) aa_tf_v12chain(y, I, p, q, I, NULL); else aa_tf_v12chain(y, p, q, NULL); }
    else if (IS("qmatrix_l") || IS("qmatrix_r") || IS("qmat_l") || IS("qmat_r")) { double *p = reg(2, QUAT), *q = reg(3, QUAT), *M = nd(4*6); struct aa_dmat m; aa_dmat_view(&m, 4, 4, M, 6); y = newr(r = QUAT);
        if (IS("qmatrix_l")) aa_tf_qmatrix_l(p, M, 6); else if (IS("qmat_l")) aa_tf_qmat_l(p, &m); else if (IS("qmatrix_r")) aa_tf_qmatrix_r(q, M, 6); else aa_tf_qmat_r(q, &m);
        mm(M, 6, strstr(api, "_l") ? q : p, 4, y); free(M); }
    else if (IS("duqu_matrix_l") || IS("duqu_matrix_r") || IS("duqu_mat_l") || IS("duqu_mat_r")) { double *p = reg(2, DUQU), *q = reg(3, DUQU), *M = nd(8*9); struct aa_dmat m; aa_dmat_view(&m, 8, 8, M, 9); y = newr(r = DUQU);
        if (IS("duqu_matrix_l")) aa_tf_duqu_matrix_l(p, M, 9); else if (IS("duqu_mat_l")) aa_tf_duqu_mat_l(p, &m); else if (IS("duqu_matrix_r")) aa_tf_duqu_matrix_r(q, M, 9); else aa_tf_duqu_mat_r(q, &m);
        mm(M, 9, strstr(api, "_l") ? q : p, 8, y); free(M); }
    else { bad_script("binop", api); return; }
    jl("{\"op\":\"%s\",\"api\":\"%s\",\"a\":%ld,\"b\":%ld", op, api, ti(2), ti(3)); obs("x", r, y); jl("}"); jflush();
}
static void inv(const char *api) {
    double *y; int r;
#define I2(name, rr) else if (IS(#name)) { double *x = reg(2, rr); y = newr(r = rr); aa_tf_##name(x, y); }
#define I1(name, rr) else if (IS(#name)) { double *x = reg(2, rr); y = newr(r = rr); memcpy(y, x, 8*RL[rr]); aa_tf_##name(y); }
    if (0) {}
    I2(qconj, QUAT) I1(qconj1, QUAT) I2(qinv, QUAT) I1(rotmat_inv1, ROTMAT) I2(rotmat_inv2, ROTMAT) I1(tfmat_inv1, TFMAT) I2(tfmat_inv2, TFMAT) I2(12inv, TFMAT) I2(qutr_conj, QUTR) I2(duqu_conj, DUQU) I1(duqu_conj1, DUQU)
    else if (IS("93inv")) { double *x = reg(2, TFMAT); y = newr(r = TFMAT); aa_tf_93inv(x, x+9, y, y+9); }
    else if (IS("qv_conj")) { double *x = reg(2, QUTR); y = newr(r = QUTR); aa_tf_qv_conj(x, x+4, y, y+4); }
    else { bad_script("inv", api); return; }
    jl("{\"op\":\"inv\",\"api\":\"%s\",\"a\":%ld", api, ti(2)); obs("x", r, y); jl("}"); jflush();
}
static void pt(const char *api) {
    double p[3], *y = nd(3); rdv(3, p);
#define P1(name, rr) else if (IS(#name)) aa_tf_##name(reg(2, rr), p, y);
    if (0) {}
    P1(12, TFMAT) P1(9, ROTMAT) P1(rotmat_rot, ROTMAT) P1(tfmat_tf, TFMAT) P1(9rot, ROTMAT) P1(qrot, QUAT) P1(axang_rot, AXANG) P1(qutr_tf, QUTR) P1(tf_duqu, DUQU) P1(duqu_tf, DUQU)
    else if (IS("93")) { double *x = reg(2, TFMAT); aa_tf_93(x, x+9, p, y); }
    else if (IS("tfmat2_tf")) { double *x = reg(2, TFMAT); aa_tf_tfmat2_tf(x, x+9, p, y); }
    else if (IS("tf_qv")) { double *x = reg(2, QUTR); aa_tf_tf_qv(x, x+4, p, y); }
    else if (IS("qrot1")) { memcpy(y, p, 24); aa_tf_qrot1(reg(2, QUAT), y); }
    else { bad_script("pt", api); return; }
    jl("{\"op\":\"pt\",\"api\":\"%s\",\"a\":%ld", api, ti(2)); lg4("p", 3); jdarr("x", y, 3, 1e6, -1); jl("}"); jflush(); free(y);
}
/* ---- constructors */
#define EUL(F) F(xyz) F(xzy) F(yxz) F(yzx) F(zxy) F(zyx) F(xyx) F(xzx) F(yxy) F(yzy) F(zxz) F(zyz)
static void ctor(const char *api) {
    double *y = NULL; int r = 0;
    if (IS("euler")) { const char *seq = ts(2); int q = (int)ti(3); double a = ang(4), b = ang(6), c = ang(8); y = newr(r = q ? QUAT : ROTMAT);
        if (0) {}
#define E1(s) else if (!strcmp(seq, #s)) { if (q) aa_tf_euler##s##2quat(a, b, c, y); else aa_tf_euler##s##2rotmat(a, b, c, y); }
        EUL(E1) else bad_script("seq", seq);
        jl("{\"op\":\"euler\",\"ax\":[%d,%d,%d],\"e\":[[%ld,%ld],[%ld,%ld],[%ld,%ld]]", seq[0]-'w', seq[1]-'w', seq[2]-'w', ti(4), ti(5), ti(6), ti(7), ti(8), ti(9)); obs("x", r, y); jl("}"); jflush(); }
    else if (IS("eulerback")) { /* angles of a rotation, composed again independently */
        double e[3], Rz[9], Ry[9], Rx[9], kz[3]={0,0,1}, ky[3]={0,1,0}, kx[3]={1,0,0}, t[9]; long k = ti(2); if (k < 1 || k > NX) bad_script("reg", api);
        if (X[k-1].rep == QUAT) aa_tf_quat2eulerzyx(X[k-1].d, e); else if (X[k-1].rep == ROTMAT) aa_tf_rotmat2eulerzyx(X[k-1].d, e); else bad_script("rep", api);
        rodrigues(kz, e[0], Rz); rodrigues(ky, e[1], Ry); rodrigues(kx, e[2], Rx); y = newr(r = ROTMAT);
        for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) { t[3*j+i] = 0; for (int l = 0; l < 3; l++) t[3*j+i] += Rz[3*l+i]*Ry[3*j+l]; }
        for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) { y[3*j+i] = 0; for (int l = 0; l < 3; l++) y[3*j+i] += t[3*l+i]*Rx[3*j+l]; }
        jl("{\"op\":\"conv\",\"api\":\"eulerback\",\"a\":%ld", k); obs("x", r, y); jl(",\"range\":%d}", fabs(e[1]) <= M_PI_2 + 1e-9 ? 1 : 0); jflush(); }
    else if (IS("angle")) { const char *f = ts(2); int x = f[0]-'w'; double th = ang(3);
        if (!strcmp(f, "xquat")) aa_tf_xangle2quat(th, y = newr(r = QUAT)); else if (!strcmp(f, "yquat")) aa_tf_yangle2quat(th, y = newr(r = QUAT)); else if (!strcmp(f, "zquat")) aa_tf_zangle2quat(th, y = newr(r = QUAT));
        else if (!strcmp(f, "xrotmat")) aa_tf_xangle2rotmat(th, y = newr(r = ROTMAT)); else if (!strcmp(f, "yrotmat")) aa_tf_yangle2rotmat(th, y = newr(r = ROTMAT)); else if (!strcmp(f, "zrotmat")) aa_tf_zangle2rotmat(th, y = newr(r = ROTMAT));
        else if (!strcmp(f, "xaxang")) aa_tf_xangle2axang(th, y = newr(r = AXANG)); else if (!strcmp(f, "yaxang")) aa_tf_yangle2axang(th, y = newr(r = AXANG)); else if (!strcmp(f, "zaxang")) aa_tf_zangle2axang(th, y = newr(r = AXANG));
        else if (f[1] == 'd') { double v[3]; rdv(5, v); y = newr(r = DUQU); if (x == 1) aa_tf_xxyz2duqu(th, v[0], v[1], v[2], y); else if (x == 2) aa_tf_yxyz2duqu(th, v[0], v[1], v[2], y); else aa_tf_zxyz2duqu(th, v[0], v[1], v[2], y); }
        else bad_script("angle", f);
        jl("{\"op\":\"angle\",\"ax\":%d,\"e\":[%ld,%ld]", x, ti(3), ti(4)); if (f[1] == 'd') lg4("p", 5); else jl(",\"p\":[0,0,0,1]"); obs("x", r, y); jl("}"); jflush(); }
    else if (IS("xyz2duqu")) { double v[3]; rdv(2, v); y = newr(r = DUQU); aa_tf_xyz2duqu(v[0], v[1], v[2], y); jl("{\"op\":\"mk\",\"rep\":\"duqu\",\"q\":[0,0,0,1]"); lg4("v", 2); obs("x", r, y); jl("}"); jflush(); }
    else if (IS("dh")) { /* dh prox|dist rep alpha(2) a(2) d(2) phi(2) */
        int prox = !strcmp(ts(2), "prox"); const char *rp = ts(3); double al = ang(4), a = (double)ti(6)/(double)ti(7), d = (double)ti(8)/(double)ti(9), ph = ang(10);
        if (!strcmp(rp, "tfmat")) { y = newr(r = TFMAT); if (prox) aa_tf_dhprox2tfmat(al, a, d, ph, y); else aa_tf_dhdist2tfmat(al, a, d, ph, y); }
        else if (!strcmp(rp, "duqu")) { y = newr(r = DUQU); if (prox) aa_tf_dhprox2duqu(al, a, d, ph, y); else aa_tf_dhdist2duqu(al, a, d, ph, y); }
        else if (!strcmp(rp, "qutr")) { y = newr(r = QUTR); if (prox) aa_tf_dhprox2qutr(al, a, d, ph, y); else aa_tf_dhdist2qutr(al, a, d, ph, y); }
        else { y = newr(r = QUTR); if (prox) aa_tf_dhprox2qv(al, a, d, ph, y, y+4); else aa_tf_dhdist2qv(al, a, d, ph, y, y+4); }
        jl("{\"op\":\"dh\",\"prox\":%d,\"alpha\":[%ld,%ld],\"a\":[%ld,%ld],\"d\":[%ld,%ld],\"phi\":[%ld,%ld]", prox, ti(4), ti(5), ti(6), ti(7), ti(8), ti(9), ti(10), ti(11)); obs("x", r, y); jl("}"); jflush(); }
    else if (IS("look")) { /* look api eye(3) target(3) up(3), integers; result is not kept as a register */
        const char *f = ts(2); double e[3], t[3], u[3], P[12] = {0}, *o; for (int i = 0; i < 3; i++) { e[i] = (double)ti(3+i); t[i] = (double)ti(6+i); u[i] = (double)ti(9+i); }
        int hast = 1;
        if (!strcmp(f, "rotmat")) { aa_tf_rotmat_mzlook(e, t, u, o = nd(9)); topose(ROTMAT, o, P); hast = 0; } else if (!strcmp(f, "tfmat")) { aa_tf_tfmat_mzlook(e, t, u, o = nd(12)); topose(TFMAT, o, P); }
        else if (!strcmp(f, "quat")) { aa_tf_qmzlook(e, t, u, o = nd(4)); topose(QUAT, o, P); hast = 0; } else if (!strcmp(f, "qv")) { o = nd(7); aa_tf_qv_mzlook(e, t, u, o, o+4); topose(QUTR, o, P); }
        else { aa_tf_qutr_mzlook(e, t, u, o = nd(7)); topose(QUTR, o, P); }
        free(o); jl("{\"op\":\"look\",\"hast\":%d,\"eye\":[%ld,%ld,%ld],\"tgt\":[%ld,%ld,%ld],\"up\":[%ld,%ld,%ld]", hast, ti(3), ti(4), ti(5), ti(6), ti(7), ti(8), ti(9), ti(10), ti(11)); jdarr("x", P, 12, 1e4, -1); jl("}"); jflush(); }
    else if (IS("axes")) { /* axes xy|yz|zx u v : orthogonal integer vectors */
        const char *f = ts(2); double u[3], v[3], *o = nd(9); for (int i = 0; i < 3; i++) { u[i] = (double)ti(3+i); v[i] = (double)ti(6+i); }
        if (!strcmp(f, "xy")) aa_tf_rotmat_xy(u, v, o); else if (!strcmp(f, "yz")) aa_tf_rotmat_yz(u, v, o); else aa_tf_rotmat_zx(u, v, o);
        jl("{\"op\":\"axes\",\"first\":%d,\"u\":[%ld,%ld,%ld],\"v\":[%ld,%ld,%ld],\"isrot\":%d", f[0]-'w', ti(3), ti(4), ti(5), ti(6), ti(7), ti(8), aa_tf_isrotmat(o) ? 1 : 0); jdarr("x", o, 9, 1e4, -1); jl("}"); jflush(); free(o); }
    else if (IS("vecs")) { /* rotation taking u to v, |u| = |v| up to the positive scales su, sv */
        double u[3], v[3], *o = nd(4), P[12]; for (int i = 0; i < 3; i++) { u[i] = (double)ti(2+i)*td(8); v[i] = (double)ti(5+i)*td(9); } aa_tf_vecs2quat(u, v, o); topose(QUAT, o, P);
        jl("{\"op\":\"vecs\",\"u\":[%ld,%ld,%ld],\"v\":[%ld,%ld,%ld]", ti(2), ti(3), ti(4), ti(5), ti(6), ti(7)); jdarr("x", P, 9, 1e5, -1); jl("}"); jflush(); free(o); }
    else if (IS("isrot")) { long k = ti(2); double M[9]; memcpy(M, reg(2, ROTMAT), 72); int kind = (int)ti(3); if (kind == 1) for (int i = 0; i < 9; i++) M[i] *= 1.01; if (kind == 2) for (int i = 0; i < 3; i++) M[i] = -M[i]; if (kind == 3) M[4] += 0.01;
        jl("{\"op\":\"isrot\",\"kind\":%d,\"a\":%ld,\"r\":%d}", kind, k, aa_tf_isrotmat(M) ? 1 : 0); jflush(); }
    else bad_script("ctor", api);
}
/* ---- exponentials and integration. screw: axis(3 ints) of integer norm an, angle 2 atan2(n,d), advance hn/hd along the axis, through point p/pd */
static void screwtw(int i, double w[3], double v[3]) { /* full-angle twist */
    double an = (double)ti(i+3), th = ang(i+4), h = (double)ti(i+6)/(double)ti(i+7), p[3], c[3]; rdv(i+8, p);
    for (int k = 0; k < 3; k++) w[k] = (double)ti(i+k)/an*th;
    cross(p, w, c); for (int k = 0; k < 3; k++) v[k] = h*(double)ti(i+k)/an + c[k];
}
static void lgscrew(int i) { jl(",\"ax\":[%ld,%ld,%ld],\"an\":%ld,\"e\":[%ld,%ld],\"h\":[%ld,%ld]", ti(i), ti(i+1), ti(i+2), ti(i+3), ti(i+4), ti(i+5), ti(i+6), ti(i+7)); lg4("p", i+8); }
static void expo(const char *api) {
    double w[3], v[3], *y = NULL; int r = 0; screwtw(2, w, v);
    double f6[6], h6[6], h8[8]; for (int i = 0; i < 3; i++) { f6[i] = v[i]; f6[3+i] = w[i]; h6[i] = v[i]/2; h6[3+i] = w[i]/2; h8[i] = w[i]/2; h8[4+i] = v[i]/2; } h8[3] = h8[7] = 0; int rot = 0;
    if (IS("qutr_expv")) aa_tf_qutr_expv(h6, y = newr(r = QUTR)); else if (IS("qv_expv")) { y = newr(r = QUTR); aa_tf_qv_expv(h6+3, h6, y, y+4); }
    else if (IS("tfmat_expv")) aa_tf_tfmat_expv(f6, y = newr(r = TFMAT)); else if (IS("duqu_exp")) aa_tf_duqu_exp(h8, y = newr(r = DUQU));
    else if (IS("pure_exp")) { double s[8]; aa_tf_pure2duqu(h6, s); aa_tf_duqu_exp(s, y = newr(r = DUQU)); }
    else if (IS("qexp")) { double q[4] = {w[0]/2, w[1]/2, w[2]/2, 0}; aa_tf_qexp(q, y = newr(r = QUAT)); rot = 1; } else if (IS("qpexp")) { double q[3] = {w[0]/2, w[1]/2, w[2]/2}; aa_tf_qpexp(q, y = newr(r = QUAT)); rot = 1; }
    else if (IS("rotmat_expv")) { aa_tf_rotmat_expv(w, y = newr(r = ROTMAT)); rot = 1; } else if (IS("rotvec2quat")) { aa_tf_rotvec2quat(w, y = newr(r = QUAT)); rot = 1; }
    else bad_script("expo", api);
    jl("{\"op\":\"screw\",\"api\":\"%s\",\"rot\":%d,\"a\":0", api, rot); lgscrew(2); obs("x", r, y); jl("}"); jflush();
}
/* step api reg dtn dtd screw : integrate for dt the velocity whose screw motion over dt is the given one */
static void step(const char *api) {
    double w[3], v[3], *y = NULL; int r = 0; screwtw(5, w, v); double dt = (double)ti(3)/(double)ti(4); long k = ti(2); if (k < 1 || k > NX) bad_script("reg", api);
    int rp = X[k-1].rep; double *x = X[k-1].d, P[12], tw[3], tv[3], dv[3], dx[6], c[3]; topose(rp, x, P); int rot = 0;
    for (int i = 0; i < 3; i++) { tw[i] = w[i]/dt; tv[i] = v[i]/dt; } cross(tw, P+9, c); for (int i = 0; i < 3; i++) { dv[i] = tv[i] + c[i]; dx[i] = dv[i]; dx[3+i] = tw[i]; }
    double dqq[4] = { 0.5*(tw[0]*x[3] + tw[1]*x[2] - tw[2]*x[1]), 0.5*(tw[1]*x[3] + tw[2]*x[0] - tw[0]*x[2]), 0.5*(tw[2]*x[3] + tw[0]*x[1] - tw[1]*x[0]), -0.5*(tw[0]*x[0]+tw[1]*x[1]+tw[2]*x[2]) };
    double t8[8] = {tw[0], tw[1], tw[2], 0, tv[0], tv[1], tv[2], 0};
#define RQ(n) if (rp != n) bad_script("rep", api)
    if (IS("qutr_svel")) { RQ(QUTR); aa_tf_qutr_svel(x, dx, dt, y = newr(r = QUTR)); } else if (IS("qv_svel")) { RQ(QUTR); y = newr(r = QUTR); aa_tf_qv_svel(x, x+4, tw, dv, dt, y, y+4); }
    else if (IS("qutr_sdiff")) { RQ(QUTR); double de[7]; memcpy(de, dqq, 32); memcpy(de+4, dv, 24); aa_tf_qutr_sdiff(x, de, dt, y = newr(r = QUTR)); }
    else if (IS("qutr_vel2diff+sdiff")) { RQ(QUTR); double de[7]; aa_tf_qutr_vel2diff(x, dx, de); aa_tf_qutr_sdiff(x, de, dt, y = newr(r = QUTR)); }
    else if (IS("qutr_twist2vel+svel")) { RQ(QUTR); double t6[6] = {tv[0], tv[1], tv[2], tw[0], tw[1], tw[2]}, d6[6]; aa_tf_qutr_twist2vel(x, t6, d6); aa_tf_qutr_svel(x, d6, dt, y = newr(r = QUTR)); }
    else if (IS("tfmat_svel")) { RQ(TFMAT); aa_tf_tfmat_svel(x, dx, dt, y = newr(r = TFMAT)); }
    else if (IS("tfmat_diff+svel")) { RQ(TFMAT); double dT[12], d6[6]; aa_tf_tfmat_vel2diff(x, dx, dT); aa_tf_tfmat_diff2vel(x, dT, d6); aa_tf_tfmat_svel(x, d6, dt, y = newr(r = TFMAT)); }
    else if (IS("duqu_svel")) { RQ(DUQU); aa_tf_duqu_svel(x, dx, dt, y = newr(r = DUQU)); }
    else if (IS("duqu_stwist")) { RQ(DUQU); aa_tf_duqu_stwist(x, t8, dt, y = newr(r = DUQU)); }
    else if (IS("duqu_vel2twist+stwist")) { RQ(DUQU); double t[8]; aa_tf_duqu_vel2twist(x, dx, t); aa_tf_duqu_stwist(x, t, dt, y = newr(r = DUQU)); }
    else if (IS("duqu_vel2diff+sdiff")) { RQ(DUQU); double dd[8]; aa_tf_duqu_vel2diff(x, dx, dd); aa_tf_duqu_sdiff(x, dd, dt, y = newr(r = DUQU)); }
    else if (IS("duqu_twist2diff+diff2vel+svel")) { RQ(DUQU); double dd[8], d6[6]; aa_tf_duqu_twist2diff(x, t8, dd); aa_tf_duqu_diff2vel(x, dd, d6); aa_tf_duqu_svel(x, d6, dt, y = newr(r = DUQU)); }
    else if (IS("duqu_twist2vel+svel")) { RQ(DUQU); double d6[6]; aa_tf_duqu_twist2vel(x, t8, d6); aa_tf_duqu_svel(x, d6, dt, y = newr(r = DUQU)); }
    else if (IS("duqu_jac+sdiff")) { RQ(DUQU); double dd[8]; struct aa_dmat J, Js; aa_dmat_view(&J, 6, 1, dx, 6); aa_dmat_view(&Js, 8, 1, dd, 8); aa_tf_duqu_jac_vel2diff(x, &J, &Js); aa_tf_duqu_sdiff(x, dd, dt, y = newr(r = DUQU)); }
    else if (IS("qsvel")) { RQ(QUAT); aa_tf_qsvel(x, tw, dt, y = newr(r = QUAT)); rot = 1; } else if (IS("qsdiff")) { RQ(QUAT); aa_tf_qsdiff(x, dqq, dt, y = newr(r = QUAT)); rot = 1; }
    else if (IS("qvel2diff+qsdiff")) { RQ(QUAT); double dq[4]; aa_tf_qvel2diff(x, tw, dq); aa_tf_qsdiff(x, dq, dt, y = newr(r = QUAT)); rot = 1; }
    else if (IS("qdiff2vel+qsvel")) { RQ(QUAT); double ww[3]; aa_tf_qdiff2vel(x, dqq, ww); aa_tf_qsvel(x, ww, dt, y = newr(r = QUAT)); rot = 1; }
    else if (IS("qsacc")) { RQ(QUAT); /* half the turn from the initial velocity, half from the acceleration */ double v0[3], a0[3]; for (int i = 0; i < 3; i++) { v0[i] = w[i]/2/dt; a0[i] = w[i]/(dt*dt); } aa_tf_qsacc(x, v0, a0, dt, y = newr(r = QUAT)); rot = 1; }
    else if (IS("qvelrk4")) { RQ(QUAT); double a[4], b[4]; memcpy(a, x, 32); for (int s = 0; s < 200; s++) { aa_tf_qvelrk4(a, tw, dt/200, b); memcpy(a, b, 32); } y = newr(r = QUAT); memcpy(y, a, 32); rot = 1; }
    else if (IS("rotmat_svel")) { RQ(ROTMAT); aa_tf_rotmat_svel(x, tw, dt, y = newr(r = ROTMAT)); rot = 1; }
    else if (IS("rotmat_diff+svel")) { RQ(ROTMAT); double dR[9], ww[3]; aa_tf_rotmat_vel2diff(x, tw, dR); aa_tf_rotmat_diff2vel(x, dR, ww); aa_tf_rotmat_svel(x, ww, dt, y = newr(r = ROTMAT)); rot = 1; }
    else bad_script("step", api);
    jl("{\"op\":\"screw\",\"api\":\"%s\",\"rot\":%d,\"a\":%ld", api, rot, k); lgscrew(5); obs("x", r, y); jl("}"); jflush();
}
/* root api reg n : exp(ln(x)/n) composed n times gives x again; the logarithm is the principal one */
static void root(const char *api) {
    long k = ti(2), n = ti(3); if (k < 1 || k > NX) bad_script("reg", api); int rp = X[k-1].rep; double *x = X[k-1].d, w[8], s[12], a[12], b[12]; double an = 0; int chk = 1;
#define ROOT(RP, LN, N, EXP, MUL, AN) { RQ(RP); LN; for (int i = 0; i < N; i++) w[i] /= (double)n; EXP; memcpy(a, s, sizeof a); for (long i = 1; i < n; i++) { MUL; memcpy(a, b, sizeof a); } an = (double)n*(AN); }
    if (IS("qutr")) ROOT(QUTR, aa_tf_qutr_lnv(x, w), 6, aa_tf_qutr_expv(w, s), aa_tf_qutr_mul(a, s, b), 2*sqrt(w[3]*w[3]+w[4]*w[4]+w[5]*w[5]))
    else if (IS("qv")) ROOT(QUTR, aa_tf_qv_lnv(x, x+4, w, w+3), 6, aa_tf_qv_expv(w, w+3, s, s+4), aa_tf_qutr_mul(a, s, b), 2*sqrt(w[0]*w[0]+w[1]*w[1]+w[2]*w[2]))
    else if (IS("tfmat")) ROOT(TFMAT, aa_tf_tfmat_lnv(x, w), 6, aa_tf_tfmat_expv(w, s), aa_tf_tfmat_mul(a, s, b), sqrt(w[3]*w[3]+w[4]*w[4]+w[5]*w[5]))
    else if (IS("duqu")) ROOT(DUQU, aa_tf_duqu_ln(x, w), 8, aa_tf_duqu_exp(w, s), aa_tf_duqu_mul(a, s, b), 2*sqrt(w[0]*w[0]+w[1]*w[1]+w[2]*w[2]))
    else if (IS("duqu_lnv")) ROOT(DUQU, aa_tf_duqu_lnv(x, w), 6, { double t[8]; aa_tf_pure2duqu(w, t); aa_tf_duqu_exp(t, s); }, aa_tf_duqu_mul(a, s, b), 2*sqrt(w[3]*w[3]+w[4]*w[4]+w[5]*w[5]))
    else if (IS("quat")) ROOT(QUAT, aa_tf_qln(x, w), 4, aa_tf_qexp(w, s), aa_tf_qmul(a, s, b), 2*sqrt(w[0]*w[0]+w[1]*w[1]+w[2]*w[2]))
    else if (IS("qpow")) ROOT(QUAT, memset(w, 0, sizeof w), 4, aa_tf_qpow(x, 1.0/(double)n, s), aa_tf_qmul(a, s, b), 0)
    else if (IS("rotmat")) ROOT(ROTMAT, aa_tf_rotmat_lnv(x, w), 3, aa_tf_rotmat_expv(w, s), aa_tf_rotmat_mul(a, s, b), sqrt(w[0]*w[0]+w[1]*w[1]+w[2]*w[2]))
    else bad_script("root", api);
    /* for quaternion forms a negative scalar part means the long way round */
    int q = rp == QUAT || rp == QUTR || rp == DUQU; if (q && x[3] < -1e-9) chk = an <= 2*M_PI + 1e-6; else chk = an <= M_PI + 0.02;
    double *y = newr(rp); memcpy(y, a, 8*RL[rp]); jl("{\"op\":\"conv\",\"api\":\"root %s\",\"a\":%ld", api, k); obs("x", rp, y); jl(",\"range\":%d}", chk); jflush();
}
/* slerp api q(4) u(4) k n flip : from q to q u^n, at k/n of the way */
static void slerp(const char *api) {
    double q[4], u[4], a[4], b[4], *y = newr(QUAT); rdq(2, q); rdq(6, u); long k = ti(10), n = ti(11); memcpy(a, q, 32);
    for (long i = 0; i < n; i++) { double *A = a; b[0] = A[0]*u[3]+A[1]*u[2]+A[3]*u[0]-A[2]*u[1]; b[1] = A[2]*u[0]+A[3]*u[1]+A[1]*u[3]-A[0]*u[2]; b[2] = A[3]*u[2]+A[2]*u[3]+A[0]*u[1]-A[1]*u[0]; b[3] = A[3]*u[3]-A[0]*u[0]-A[1]*u[1]-A[2]*u[2]; memcpy(a, b, 32); }
    if (ti(12)) for (int i = 0; i < 4; i++) a[i] = -a[i];
    double t = (double)k/(double)n, e = 0;
    if (IS("qslerp")) aa_tf_qslerp(t, q, a, y); else if (IS("qslerpalg")) aa_tf_qslerpalg(t, q, a, y);
    else if (IS("diff") || IS("diffalg") || IS("chain")) { /* derivative against a central difference of the (exactly checked) interpolation */
        double d[4], p[4], m[4], h = 1e-5; aa_tf_qslerp(t, q, a, y); aa_tf_qslerp(t+h, q, a, p); aa_tf_qslerp(t-h, q, a, m);
        double z[4] = {0}, qq[4];
        if (IS("diff")) aa_tf_qslerpdiff(t, q, a, d); else if (IS("diffalg")) aa_tf_qslerpdiffalg(t, q, a, d); else { aa_tf_qslerpchaindiff(t, 1, q, z, a, z, qq, d); memcpy(y, qq, 32); }
        for (int i = 0; i < 4; i++) { double x = fabs((p[i]-m[i])/(2*h) - d[i]); if (!(x <= e)) e = x; } }
    else bad_script("slerp", api);
    jl("{\"op\":\"slerp\",\"api\":\"%s\",\"k\":%ld,\"n\":%ld", api, k, n); lg4("q", 2); lg4("u", 6); obs("x", QUAT, y); jl(",\"err\":%ld}", q_rnd(e, 1e4)); jflush();
}
/* average of q u^i and q u^-i (i = 1..n) [and q itself] with equal or symmetric weights is q */
static void avg(void) {
    double q[4], u[4], Q[5*16]; rdq(1, q); rdq(5, u); long n = ti(9); int self = (int)ti(10), wnull = (int)ti(11); size_t m = 0; double W[16];
    double f[4], g[4], uc[4] = {-u[0], -u[1], -u[2], u[3]}, t[4]; memcpy(f, q, 32); memcpy(g, q, 32);
    for (long i = 0; i < n && m + 2 < 16; i++) { aa_tf_qmul(f, u, t); memcpy(f, t, 32); aa_tf_qmul(g, uc, t); memcpy(g, t, 32);
        for (int c = 0; c < 4; c++) { Q[5*m+(size_t)c] = (i % 2 ? -1 : 1)*f[c]; Q[5*(m+1)+(size_t)c] = g[c]; } W[m] = W[m+1] = 1.0/(double)(i+2); m += 2; }
    if (self) { memcpy(Q+5*m, q, 32); W[m++] = 0.7; }
    double *y = newr(QUAT); aa_tf_quat_davenport(m, wnull ? NULL : W, Q, 5, y);
    jl("{\"op\":\"avg\""); lg4("q", 1); obs("x", QUAT, y); jl("}"); jflush();
}
/* vdiff rep reg w(3) dv(3): exact derivative of the representation for integer velocities; the register's quaternion has an integer norm */
static void vdiff(const char *api) {
    long k = ti(2); if (k < 1 || k > NX) bad_script("reg", api); int rp = X[k-1].rep; double *x = X[k-1].d, d[12], dx[6], bk[6]; for (int i = 0; i < 3; i++) { dx[3+i] = (double)ti(3+i); dx[i] = (double)ti(6+i); bk[i] = dx[i]; bk[3+i] = dx[3+i]; } size_t n = RL[rp];
    if (rp == QUAT) { aa_tf_qvel2diff(x, dx+3, d); aa_tf_qdiff2vel(x, d, bk+3); } else if (rp == ROTMAT) { aa_tf_rotmat_vel2diff(x, dx+3, d); aa_tf_rotmat_diff2vel(x, d, bk+3); }
    else if (rp == QUTR) { aa_tf_qutr_vel2diff(x, dx, d); aa_tf_qutr_diff2vel(x, d, bk); } else if (rp == TFMAT) { aa_tf_tfmat_vel2diff(x, dx, d); aa_tf_tfmat_diff2vel(x, d, bk); }
    else if (rp == DUQU) { aa_tf_duqu_vel2diff(x, dx, d); aa_tf_duqu_diff2vel(x, d, bk); } else bad_script("rep", api);
    jl("{\"op\":\"vdiff\",\"rep\":\"%s\",\"a\":%ld,\"w\":[%ld,%ld,%ld],\"dv\":[%ld,%ld,%ld]", RN[rp], k, ti(3), ti(4), ti(5), ti(6), ti(7), ti(8)); jdarr("d", d, n, 1e5, -1); jdarr("back", bk, 6, 1e5, -1); jl("}"); jflush();
}
/* twist reg w dv : velocity <-> twist */
static void twist(const char *api) {
    long k = ti(2); if (k < 1 || k > NX) bad_script("reg", api); double *x = X[k-1].d, dx[6], t[8] = {0}, bk[6], o[6]; for (int i = 0; i < 3; i++) { dx[3+i] = (double)ti(3+i); dx[i] = (double)ti(6+i); } long z = 0;
    if (X[k-1].rep == QUTR) { aa_tf_qv_vel2twist(x, x+4, dx+3, dx, o+3, o); if (IS("a")) aa_tf_qv_twist2vel(x, x+4, o+3, o, bk+3, bk); else aa_tf_qutr_twist2vel(x, o, bk); }
    else if (X[k-1].rep == DUQU) { aa_tf_duqu_vel2twist(x, dx, t); aa_tf_duqu_twist2vel(x, t, bk); aa_tf_duqu2pure(t, o); z = q_rnd(t[3], 1e5) + q_rnd(t[7], 1e5);
        if (IS("a")) { double dd[8], t2[8]; aa_tf_duqu_twist2diff(x, t, dd); aa_tf_duqu_diff2twist(x, dd, t2); aa_tf_duqu2pure(t2, o); } }
    else bad_script("rep", api);
    jl("{\"op\":\"twist\",\"a\":%ld,\"w\":[%ld,%ld,%ld],\"dv\":[%ld,%ld,%ld],\"z\":%ld", k, ti(3), ti(4), ti(5), ti(6), ti(7), ti(8), z); jdarr("t", o, 6, 1e5, -1); jdarr("back", bk, 6, 1e5, -1); jl("}"); jflush();
}
/* vec u v : vector helpers on integers */
static void vec(void) {
    double u[3], v[3], c[3], ca[3] = {1, 2, 3}, M[12], N[12], x[3], y[3], pr[3], po[3]; for (int i = 0; i < 3; i++) { u[i] = (double)ti(1+i); v[i] = (double)ti(4+i); }
    struct aa_dmat m, n; aa_dmat_view(&m, 3, 3, M, 4); aa_dmat_view(&n, 3, 3, N, 4); aa_tf_cross(u, v, c); aa_tf_cross_a(u, v, ca); aa_tf_cross_mat_l(u, &m); aa_tf_cross_mat_r(v, &n); mm(M, 4, v, 3, x); mm(N, 4, u, 3, y); aa_tf_proj(u, v, pr); aa_tf_proj_orth(u, v, po);
    float fu[3] = {(float)u[0], (float)u[1], (float)u[2]}, fv[3] = {(float)v[0], (float)v[1], (float)v[2]}, fc[3]; aa_tf_crossf(fu, fv, fc); double fcd[3] = {fc[0], fc[1], fc[2]};
    double sc[5] = { aa_tf_vdot(u, v), (double)aa_tf_vdotf(fu, fv), pow(aa_tf_vnorm(u), 2), pow(aa_tf_vssd(u, v), 2), 0 };
    jl("{\"op\":\"vec\",\"u\":[%ld,%ld,%ld],\"v\":[%ld,%ld,%ld]", ti(1), ti(2), ti(3), ti(4), ti(5), ti(6)); jdarr("c", c, 3, 1, 1e-9); jdarr("ca", ca, 3, 1, 1e-9); jdarr("ml", x, 3, 1, 1e-9); jdarr("mr", y, 3, 1, 1e-9); jdarr("cf", fcd, 3, 1, 1e-3);
    jdarr("pr", pr, 3, 1e5, -1); jdarr("po", po, 3, 1e5, -1); jdarr("sc", sc, 4, 1, 1e-6); jl("}"); jflush();
}
/* qalg a(4) b(4): integer quaternion arithmetic (not unit) */
static void qalg(void) {
    double a[4], b[4], c[4], x[4]; for (int i = 0; i < 4; i++) { a[i] = (double)ti(1+i); b[i] = (double)ti(5+i); }
    jl("{\"op\":\"qalg\""); lg4("a", 1); lg4("b", 5);
    aa_tf_qmul(a, b, c); jdarr("mul", c, 4, 1, 1e-9); aa_tf_qcmul(a, b, c); jdarr("cmul", c, 4, 1, 1e-9); aa_tf_qmulc(a, b, c); jdarr("mulc", c, 4, 1, 1e-9);
    aa_tf_qmul_qv(a, b, c); jdarr("qv", c, 4, 1, 1e-9); aa_tf_qmul_vq(a, b, c); jdarr("vq", c, 4, 1, 1e-9); aa_tf_qadd(a, b, c); jdarr("add", c, 4, 1, 1e-9); aa_tf_qsub(a, b, c); jdarr("sub", c, 4, 1, 1e-9);
    memcpy(x, a, 32); aa_tf_qiadd(x, b); jdarr("iadd", x, 4, 1, 1e-9); memcpy(x, a, 32); aa_tf_qisub(x, b); jdarr("isub", x, 4, 1, 1e-9);
    double s[4] = { aa_tf_qdot(a, b), pow(aa_tf_qnorm(a), 2), pow(aa_tf_qssd(a, b), 2), 0 }; jdarr("sc", s, 3, 1, 1e-6); jl("}"); jflush();
}
/* dlog q(4) dq(4)/100 : derivatives of logarithm and exponential against central differences */
static double fdmax(const double *p, const double *m, const double *d, size_t n, double h) { double e = 0; for (size_t i = 0; i < n; i++) { double x = fabs((p[i]-m[i])/(2*h) - d[i]); if (!(x <= e)) e = x; } return e; }
static void dlog(void) {
    double q[4], w[3], dq[4], p[4], m[4], lp[8], lm[8], d[8], h = 1e-5; rdq(1, q); for (int i = 0; i < 3; i++) w[i] = (double)ti(5+i)/10; double er[8] = {0};
    aa_tf_qvel2diff(q, w, dq); aa_tf_qsvel(q, w, h, p); aa_tf_qsvel(q, w, -h, m); aa_tf_qln(p, lp); aa_tf_qln(m, lm);
    aa_tf_qduln(q, dq, d); er[0] = fdmax(lp, lm, d, 3, h); aa_tf_qdulnj(q, dq, d); er[1] = fdmax(lp, lm, d, 3, h);
    { double J[24]; struct aa_dmat M; aa_dmat_view(&M, 4, 4, J, 5); aa_tf_qln_jac(q, &M); mm(J, 5, dq, 4, d); er[2] = fdmax(lp, lm, d, 4, h); }
    double e[3] = {0.3*w[0]+0.1, 0.2*w[1]-0.3, 0.1*w[2]+0.2}, ep[3], em[3], xp[4], xm[4]; for (int i = 0; i < 3; i++) { ep[i] = e[i]+h*w[i]; em[i] = e[i]-h*w[i]; } aa_tf_qpexp(ep, xp); aa_tf_qpexp(em, xm);
    aa_tf_qdpexp(e, w, d); er[3] = fdmax(xp, xm, d, 4, h); aa_tf_qdpexpj(e, w, d); er[4] = fdmax(xp, xm, d, 4, h);
    { double v[3] = {1, -2, 0.5}, S[8], Sp[8], Sm[8], dS[8], J[80], dx[6] = {0.3, -0.2, 0.5, w[0], w[1], w[2]}; fill(DUQU, q, v, S); aa_tf_duqu_svel(S, dx, h, Sp); aa_tf_duqu_svel(S, dx, -h, Sm); aa_tf_duqu_vel2diff(S, dx, dS); er[5] = fdmax(Sp, Sm, dS, 8, h);
      aa_tf_duqu_ln(Sp, lp); aa_tf_duqu_ln(Sm, lm); struct aa_dmat M; aa_dmat_view(&M, 8, 8, J, 10); aa_tf_duqu_ln_jac(S, &M); mm(J, 10, dS, 8, d); er[6] = fdmax(lp, lm, d, 8, h);
      double c[8], cj[8]; aa_tf_duqu_conj_jac(&M); mm(J, 10, dS, 8, c); aa_tf_duqu_conj(dS, cj); for (int i = 0; i < 8; i++) { double z = fabs(c[i]-cj[i]); if (!(z <= er[7])) er[7] = z; } }
    jl("{\"op\":\"dlog\""); lg4("q", 1); jdarr("er", er, 8, 1e4, -1); jl("}"); jflush();
}
/* relx q(4) n pts... : mean / median of y - R x */
static void relx(void) {
    double q[4], R[9], Xd[5*16], Yd[4*16], rel[3]; rdq(1, q); su_q2m(q, R); size_t n = (size_t)ti(6); int med = (int)ti(5);
    jl("{\"op\":\"relx\",\"med\":%d", med); lg4("q", 1); jl(",\"pts\":[");
    for (size_t j = 0; j < n; j++) { for (int i = 0; i < 3; i++) { Xd[5*j+(size_t)i] = (double)ti(7+6*(int)j+i); Yd[4*j+(size_t)i] = (double)ti(10+6*(int)j+i); } jl("%s[%ld,%ld,%ld,%ld,%ld,%ld]", j ? "," : "", ti(7+6*(int)j), ti(8+6*(int)j), ti(9+6*(int)j), ti(10+6*(int)j), ti(11+6*(int)j), ti(12+6*(int)j)); }
    if (med) aa_tf_relx_median(n, R, Xd, 5, Yd, 4, rel); else aa_tf_relx_mean(n, R, Xd, 5, Yd, 4, rel);
    jl("]"); jdarr("x", rel, 3, 1e5, -1); jl("}"); jflush();
}
static void trace_cmd(void) {
    const char *op = TOK[0], *api = NTOK > 1 ? TOK[1] : "";
    if (!strcmp(op, "mk")) { /* mk rep q(4) v(4) */
        int r = repno(api); double q[4], v[3]; rdq(2, q); rdv(6, v);
        /* optional: a perturbation far below the resolution of the observations (exponent, base-3 pattern), so that pivots and series arguments are arbitrary doubles */
        if (NTOK > 10) { double n = sqrt(q[0]*q[0]+q[1]*q[1]+q[2]*q[2]+q[3]*q[3])*pow(10, -(double)ti(10)); long p = ti(11); for (int i = 0; i < 4; i++, p /= 3) q[i] += n*(double)(p%3-1); } double *d = newr(r); fill(r, q, v, d);
        /* and rounding noise of the last bit in the stored elements */
        if (NTOK > 10) { unsigned long h = (unsigned long)ti(11)*2654435761u + (unsigned long)ti(10); for (size_t i = 0; i < RL[r]; i++) { h = h*6364136223846793005ul + 1442695040888963407ul; int k = (int)(h >> 33) % 3 - 1; if (k) d[i] = d[i] == 0 ? k*1e-17 : nextafter(d[i], k*9.0); } }
        jl("{\"op\":\"mk\",\"rep\":\"%s\"", RN[r]); lg4("q", 2); lg4("v", 6); obs("x", r, d); jl("}"); jflush(); }
    else if (!strcmp(op, "conv")) conv(api); else if (!strcmp(op, "mul") || !strcmp(op, "imul") || !strcmp(op, "muli")) binop(op, api); else if (!strcmp(op, "inv")) inv(api); else if (!strcmp(op, "pt")) pt(api);
    else if (!strcmp(op, "ctor")) ctor(api); else if (!strcmp(op, "exp")) expo(api); else if (!strcmp(op, "step")) step(api); else if (!strcmp(op, "root")) root(api); else if (!strcmp(op, "slerp")) slerp(api); else if (!strcmp(op, "avg")) avg();
    else if (!strcmp(op, "vdiff")) vdiff(api); else if (!strcmp(op, "twist")) twist(api); else if (!strcmp(op, "vec")) vec(); else if (!strcmp(op, "qalg")) qalg(); else if (!strcmp(op, "dlog")) dlog(); else if (!strcmp(op, "relx")) relx();
    else bad_script("op", op);
}
DRV_MAIN
