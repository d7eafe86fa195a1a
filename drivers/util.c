/* Time, modular arithmetic, angles, statistics, byte order, and small numeric helpers. */
#include "amino.h"
#include "amino/time.h"
#include "amino/endconv.h"
#include "amino/kin.h"
#include "amino/cv.h"
#include "drv.h"
extern double aa_stat_mahalanobis(size_t m, const double *x, const double *mu, const double *E_inv);
static void trace_begin(void) { }
static void trace_end(void) { }
static const char *OP;
static void ev(void) { OP = TOK[0]; jl("{\"op\":\"%s\",\"a\":[", OP); for (int i = 1; i < NTOK; i++) jl("%s%ld", i > 1 ? "," : "", ti(i)); jl("]"); }
static void i_(const char *k, long v) { jl(",\"%s\":%ld", k, v); }
static void end(void) { jl("}"); jflush(); }
static struct timespec tm_(int i) { return aa_tm_make((time_t)ti(i), ti(i + 1)); }
static void tmj(const char *k, struct timespec t) { jl(",\"%s\":[%ld,%ld]", k, (long)t.tv_sec, t.tv_nsec); }
static long fdiv(int64_t a, int64_t b) { int64_t q = a / b; return (long)(a % b < 0 ? q - 1 : q); }
static void split(const char *k, int64_t v, int64_t b) { long q = fdiv(v, b); jl(",\"%s\":[%ld,%ld]", k, q, (long)(v - q * b)); }
static int sg(long x) { return x < 0 ? -1 : x > 0; }
static int64_t ns(struct timespec t) { return (int64_t)t.tv_sec * 1000000000 + t.tv_nsec; }
#define E8(x) q_int(x, 8, 1e-9)
static double *vec(int i, size_t n, double div) { double *x = malloc(8 * n + 8); for (size_t k = 0; k < n; k++) x[k] = td((int)(i + (int)k)) / div; x[n] = -77.125; return x; }
/* angle of the k-th unit vector with coordinates in fifths, plus turns */
static const int UC[12] = {5, 4, 3, 0, -3, -4, -5, -4, -3, 0, 3, 4}, US[12] = {0, 3, 4, 5, 4, 3, 0, -3, -4, -5, -4, -3};
static double *angs(int i, size_t n) { double *x = malloc(8 * n + 8); for (size_t k = 0; k < n; k++) { long v = ti((int)(i + (int)k)); x[k] = atan2(US[v % 100], UC[v % 100]) + 2 * M_PI * (double)(v / 100 - 3); } return x; }
static const char *TY[] = {"i16", "u16", "i32", "u32", "i64", "u64", "s", "d"}; static const int SZ[] = {2, 2, 4, 4, 8, 8, 4, 8};
static void bytes(const char *k, const uint8_t *b, int n) { jl(",\"%s\":[", k); for (int i = 0; i < n; i++) jl("%s%d", i ? "," : "", b[i]); jl("]"); }
static void bits(const char *k, uint64_t v, int n) { uint8_t b[8]; for (int i = 0; i < n; i++) b[i] = (uint8_t)(v >> (8 * (n - 1 - i))); bytes(k, b, n); }   /* most significant first */
#define PAD 0xA5
/* T: value type, U: unsigned integer of the same size */
#define ENDIAN(sfx, T, U) { T v, w; U u; \
    v = aa_endconv_ld_be_##sfx(in + 1); memcpy(&u, &v, sizeof u); bits("ldbe", u, n); v = aa_endconv_ld_le_##sfx(in + 1); memcpy(&u, &v, sizeof u); bits("ldle", u, n); \
    u = 0; for (int i = 0; i < n; i++) u = (U)((U)(sizeof u > 1 ? u << 8 : 0) | in[1 + i]); memcpy(&w, &u, sizeof u); \
    aa_endconv_st_be_##sfx(out + 1, w); bytes("stbe", out + 1, n); ok &= out[0] == PAD && out[n + 1] == PAD; aa_endconv_st_le_##sfx(out + 1, w); bytes("stle", out + 1, n); ok &= out[0] == PAD && out[n + 1] == PAD; }
#define HOST(sfx, T, U) { T v, w; U u = 0; for (int i = 0; i < n; i++) u = (U)((U)(u << 8) | in[1 + i]); memcpy(&w, &u, sizeof u); \
    v = aa_endconv_h_to_be_##sfx(w); bytes("h2be", (uint8_t*)&v, n); v = aa_endconv_h_to_le_##sfx(w); bytes("h2le", (uint8_t*)&v, n); \
    memcpy(&w, in + 1, sizeof w); v = aa_endconv_be_to_h_##sfx(w); memcpy(&u, &v, sizeof u); bits("be2h", u, n); v = aa_endconv_le_to_h_##sfx(w); memcpy(&u, &v, sizeof u); bits("le2h", u, n); }
static void trace_cmd(void) {
    const char *op = TOK[0];
    ev();
    if (!strcmp(op, "norm")) tmj("r", aa_tm_make_norm((time_t)ti(1), ti(2) * 1000000000L + ti(3)));
    else if (!strcmp(op, "time2")) { struct timespec a = tm_(1), b = tm_(3); tmj("add", aa_tm_add(a, b)); tmj("sub", aa_tm_sub(a, b)); i_("cmp", sg(aa_tm_cmp(a, b))); tmj("min", aa_tm_min(a, b)); tmj("max", aa_tm_max(a, b));
        split("us", aa_tm_timespec2usec(a), 1000000); split("ms", aa_tm_timespec2msec(a), 1000); i_("frac", q_rnd(aa_tm_timespec2sec(a) - (double)a.tv_sec, 1e6)); }
    else if (!strcmp(op, "far")) { /* hi lo ns hi lo ns : seconds hi * 2^20 + lo */ struct timespec a = aa_tm_make((time_t)(ti(1) * 1048576 + ti(2)), ti(3)), b = aa_tm_make((time_t)(ti(4) * 1048576 + ti(5)), ti(6)), x = aa_tm_min(a, b), y = aa_tm_max(a, b); i_("cmp", sg(aa_tm_cmp(a, b)));
        i_("mm", (ns(x) == ns(a) && ns(y) == ns(b)) + 2 * (ns(x) == ns(b) && ns(y) == ns(a))); struct timespec c = aa_tm_sub(aa_tm_add(a, b), b); i_("inv", c.tv_sec == a.tv_sec && c.tv_nsec == a.tv_nsec); split("us", aa_tm_timespec2usec(a) - aa_tm_timespec2usec(aa_tm_make(a.tv_sec, 0)), 1000000); i_("ush", (long)(aa_tm_timespec2usec(aa_tm_make(a.tv_sec, 0)) / 1000000 / 1048576)); }
    else if (!strcmp(op, "sec")) { struct timespec t = aa_tm_sec2timespec(td(1) / 512.0); tmj("r", t); i_("back", q_int(aa_tm_timespec2sec(t), 512, 1e-4)); }
    else if (!strcmp(op, "clock")) { struct timespec r = tm_(1), t0 = aa_tm_now(), f = aa_tm_future(r), t1 = aa_tm_now(); i_("ok", ns(t0) + ns(r) <= ns(f) && ns(f) <= ns(t1) + ns(r) && f.tv_nsec >= 0 && f.tv_nsec < 1000000000); i_("after", aa_tm_isafter(aa_tm_add(aa_tm_now(), r))); }
    else if (!strcmp(op, "sleep")) { struct timespec r = tm_(1), t0 = aa_tm_now(); int k = aa_tm_relsleep(r); i_("ok", k == 0 && ns(aa_tm_now()) - ns(t0) >= ns(r)); }
    else if (!strcmp(op, "mod")) { long a = ti(1), b = ti(2); i_("i", aa_imodulo((int)a, (int)b)); i_("l", aa_lmodulo(a, b)); i_("j", (long)aa_imodulo64(a, b)); i_("r", aa_iremainder((int)a, (int)b)); i_("f", E8(aa_fmodulo((double)a / 8, (double)b / 8))); i_("g", E8(aa_fremainder((double)a / 8, (double)b / 8))); }
    else if (!strcmp(op, "ang")) { double a = td(1) * M_PI / 180, b = td(2) * M_PI / 180, x = aa_ang_norm_2pi(a), y = aa_ang_norm_pi(a), z = aa_ang_delta(a, b);
        i_("in", x >= 0 && x < 2 * M_PI && fabs(y) <= M_PI && fabs(z) <= M_PI); i_("u", q_rnd(x * 180 / M_PI, 1e3)); i_("p", q_rnd(y * 180 / M_PI, 1e3)); i_("d", q_rnd(z * 180 / M_PI, 1e3)); i_("deg", q_int(aa_ang_rad2deg(a), 1, 1e-7)); i_("rad", q_int(aa_ang_deg2rad(td(1)) / M_PI * 180, 1, 1e-7));
        double s, c; aa_sincos(a, &s, &c); i_("trig", fabs(s - sin(a)) + fabs(c - cos(a)) < 1e-12); }
    else if (!strcmp(op, "tiny")) { double a = -ldexp(1, -(int)ti(1)), x = aa_ang_norm_2pi(a), y = aa_ang_norm_pi(a); i_("in", x >= 0 && x < 2 * M_PI); i_("near", (x < 1e-6 || x > 2 * M_PI - 1e-6) && fabs(y - a) < 1e-12); }
    else if (!strcmp(op, "scalar")) { /* val min max dead, eighths */ double v = td(1) / 8, lo = td(2) / 8, hi = td(3) / 8, d = td(4) / 8;
        i_("clamp", E8(aa_fclamp(v, lo, hi))); i_("dead", E8(aa_fdeadzone(v, lo, hi, d))); i_("sign", E8(aa_sign(v))); i_("sq", q_int(aa_fsq(v), 64, 1e-9)); i_("max", E8(AA_MAX(v, d))); i_("min", E8(AA_MIN(v, d))); i_("feq", aa_feq(v, d, fabs(lo))); i_("h3", q_int(aa_horner3(v, lo, hi, d), 512, 1e-9));
        i_("z2x", q_int(aa_stat_z2x(v, lo, d), 64, 1e-9)); i_("x2z", q_int(aa_stat_x2z(v, lo, d) * d, 8, 1e-6)); i_("ok", aa_isfok(v) && aa_isfok(DBL_MIN / 4) && !aa_isfok(v / 0.0) && !aa_isfok(nan("")) && !aa_isfok(-INFINITY)); }
    else if (!strcmp(op, "vec")) { /* min max tol n x y */ size_t n = (size_t)ti(4); double *x = vec(5, n, 8), *y = vec((int)(5 + n), n, 8); i_("veq", aa_veq(n, x, y, td(3) / 8)); if (n) { i_("minloc", (long)aa_fminloc(n, x)); i_("maxloc", (long)aa_fmaxloc(n, x)); }
        aa_vclamp(n, x, td(1) / 8, td(2) / 8); i_("guard", x[n] == -77.125); jdarr("c", x, n, 8, 1e-9); free(x); free(y); }
    else if (!strcmp(op, "rand")) { size_t n = (size_t)ti(1); double lo = td(2) / 8, hi = td(3) / 8, *x = vec(4, 0, 1); x = realloc(x, 8 * n + 8); for (size_t i = 0; i <= n; i++) x[i] = -77.125; aa_vrand(n, x); int ok = x[n] == -77.125, df = n < 3; for (size_t i = 0; i < n; i++) { ok &= x[i] >= 0 && x[i] <= 1; df |= i && x[i] != x[i - 1]; double f = aa_frand(), g = aa_frand_minmax(lo, hi); ok &= f >= 0 && f <= 1 && g >= lo - 1e-12 && g <= hi + 1e-12; } i_("ok", ok && df); free(x); }
    else if (!strcmp(op, "stat")) { /* n x : integers */ size_t n = (size_t)ti(1); double *x = vec(2, n, 1), m = aa_stat_mean(n, x), s = aa_stat_std(n, x); i_("mean", q_int(m * (double)n, 1, 1e-6)); i_("var", q_int(s * s * (double)(n * (n - 1)), 1, 1e-3)); free(x); }
    else if (!strcmp(op, "cov")) { /* m n X by column */ size_t m = (size_t)ti(1), n = (size_t)ti(2); double *X = vec(3, m * n, 1), *mu = vec(1, 0, 1), *E = malloc(8 * (m * m + 1)); mu = realloc(mu, 8 * (m + 1)); mu[m] = E[m * m] = -77.125; for (size_t i = 0; i < m * m; i++) E[i] = -77.125;
        aa_stat_vmean(m, n, X, mu); jdarr("vm", mu, m, (double)n, 1e-6); aa_stat_vmean_cov(m, n, X, mu, E); jdarr("mu", mu, m, (double)n, 1e-6); i_("guard", mu[m] == -77.125 && E[m * m] == -77.125); jdarr("e", E, m * m, (double)(n * (n - 1)), 1e-3); free(X); free(mu); free(E); }
    else if (!strcmp(op, "maha")) { /* m x mu A */ size_t m = (size_t)ti(1); double *x = vec(2, m, 1), *mu = vec((int)(2 + m), m, 1), *A = vec((int)(2 + 2 * m), m * m, 1), d = aa_stat_mahalanobis(m, x, mu, A); i_("d2", q_int(d * d, 1, 1e-5)); int ok = 1; for (size_t i = 0; i < m; i++) ok &= x[i] == td((int)(2 + i)) && mu[i] == td((int)(2 + m + i)); i_("kept", ok); free(x); free(mu); free(A); }
    else if (!strcmp(op, "excl")) { /* zmin zmax (halves) iterations n x : after 1, 2, ... iterations */ size_t n = (size_t)ti(4); int K = (int)ti(3); double *x = vec(5, n, 1), mu[8], sg_[8]; long it[8];
        mu[0] = aa_stat_mean(n, x); sg_[0] = aa_stat_std(n, x); it[0] = 0; for (int k = 1; k <= K; k++) { it[k] = (long)aa_stat_excluded_mean_std(n, x, mu + k, sg_ + k, td(1) / 2, td(2) / 2, (size_t)k); if (!(sg_[k] > 1e-9)) { K = k; break; } }
        jdarr("mu", mu, (size_t)K + 1, 1e3, -1); jdarr("sd", sg_, (size_t)K + 1, 1e3, -1); jarr("it", it, (size_t)K + 1); free(x); }
    else if (!strcmp(op, "circ")) { /* n directions */ size_t n = (size_t)ti(1); double *x = angs(2, n), m = aa_stat_circ_mean(n, x), s = aa_stat_circ_std(n, x), m2, s2; i_("c", q_rnd(cos(m), 1e4)); i_("s", q_rnd(sin(m), 1e4)); i_("r2", q_rnd(exp(-s * s) * (double)(n * n) * 25, 1)); i_("pos", s >= 0);
        m2 = m; s2 = s; if (!(s < 1e-3)) aa_stat_excluded_circ_mean_std(n, x, &m2, &s2, -1e300, 1e300, 4); /* directions that are all the same leave nothing to exclude */ i_("c2", q_rnd(cos(m2), 1e4)); i_("s2", q_rnd(sin(m2), 1e4)); i_("e2", q_rnd(exp(-s2 * s2) * (double)(n * n) * 25, 1)); free(x); }
    else if (!strcmp(op, "cexcl")) { /* zmin zmax (halves) n directions : one round of exclusion */ size_t n = (size_t)ti(3); double *x = angs(4, n), m = aa_stat_circ_mean(n, x), s = aa_stat_circ_std(n, x), m2, s2; i_("m0", q_rnd(m, 1e4)); i_("s0", s < 1e4 ? q_rnd(s, 1e4) : 99999999); jdarr("x", x, n, 1e4, -1);
        aa_stat_excluded_circ_mean_std(n, x, &m2, &s2, td(1) / 2, td(2) / 2, 1); i_("c", q_rnd(cos(m2), 1e4)); i_("s", q_rnd(sin(m2), 1e4)); i_("r2", q_rnd(exp(-s2 * s2), 1e6)); free(x); }
    else if (!strcmp(op, "gauss")) { /* x1 x2 / 1024 */ double a, b; aa_stat_box_muller(td(1) / 1024, td(2) / 1024, &a, &b); i_("x1", q_int(exp(-(a * a + b * b) / 2), 1024, 1e-6)); i_("x2", q_rnd(atan2(b, a) / (2 * M_PI), 1024)); }
    else if (!strcmp(op, "endian")) { /* type bytes */ int t = (int)ti(1), n = SZ[t], ok = 1; uint8_t in[10], out[10]; memset(in, PAD, 10); memset(out, PAD, 10); for (int i = 0; i < n; i++) in[1 + i] = (uint8_t)ti(2 + i); (void)TY;
        uint8_t keep[10]; memcpy(keep, in, 10);
        switch (t) { case 0: ENDIAN(i16, int16_t, uint16_t) HOST(i16, int16_t, uint16_t) break; case 1: ENDIAN(u16, uint16_t, uint16_t) HOST(u16, uint16_t, uint16_t) break;
            case 2: ENDIAN(i32, int32_t, uint32_t) HOST(i32, int32_t, uint32_t) break; case 3: ENDIAN(u32, uint32_t, uint32_t) HOST(u32, uint32_t, uint32_t) break;
            case 4: ENDIAN(i64, int64_t, uint64_t) HOST(i64, int64_t, uint64_t) break; case 5: ENDIAN(u64, uint64_t, uint64_t) HOST(u64, uint64_t, uint64_t) break;
            case 6: ENDIAN(s, float, uint32_t) break; default: ENDIAN(d, double, uint64_t) }
        i_("guard", ok && !memcmp(keep, in, 10)); }
    else if (!strcmp(op, "arm")) { /* l1 l2 x y (quarters) */ double l[2] = {td(1), td(2)}, x[2] = {td(3) / 4, td(4) / 4}, t[2][2]; int r = aa_kin_planar2_ik_theta2(l, x, t[0], t[1]); i_("r", r != 0);
        for (int k = 0; k < 2; k++) { double v[4] = {l[0] * cos(t[k][0]), l[0] * sin(t[k][0]), l[0] * cos(t[k][0]) + l[1] * cos(t[k][1]), l[0] * sin(t[k][0]) + l[1] * sin(t[k][1])}; jdarr(k ? "b" : "a_", v, 4, 1e3, -1); } }
    else if (!strcmp(op, "hsv")) { /* r g b, eighths */ double c[3] = {td(1) / 8, td(2) / 8, td(3) / 8}, h[3]; aa_cv_rgb2hsv(c, h); i_("v", E8(h[2])); i_("sat", h[1] >= 0 && h[1] <= 1 + 1e-12 && (h[1] != 0 || 1)); i_("x", q_rnd(2 * h[1] * h[2] * cos(h[0]), 8e3)); i_("y", q_rnd(2 * h[1] * h[2] * sin(h[0]) / sqrt(3), 8e3)); i_("gray", h[1] == 0 || fabs(h[1]) < 1e-15); }
    else bad_script("unknown op", op);
    end();
}
DRV_MAIN
