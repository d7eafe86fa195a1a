/* Instantiated for double (F=d) and float (F=s): included twice by la.c. */
#define CAT_(a,b,c) a##b##c
#define CAT(a,b,c) CAT_(a,b,c)
#define LA(n) CAT(CAT(aa_la_,F,_),n,)
#define FN(n) CAT(n,_,F)
/* guarded column-major matrix: ld rows, junk in the gaps */
static T *FN(gm)(int r, int c, int ld) { size_t n = (size_t)ld * (size_t)(c > 0 ? c : 1) + 4; T *m = (T*)malloc(n * sizeof(T)); for (size_t i = 0; i < n; i++) m[i] = (T)(777 + (int)(i % 5)); (void)r; return m; }
static int FN(gok)(const T *m, int r, int c, int ld) { size_t n = (size_t)ld * (size_t)(c > 0 ? c : 1) + 4; for (size_t i = 0; i < n; i++) { int row = (int)(i % (size_t)ld), col = (int)(i / (size_t)ld); if ((row >= r || col >= c) && m[i] != (T)(777 + (int)(i % 5))) return 0; } return 1; }
static T *FN(rd)(int r, int c, int ld, int *k) { T *m = FN(gm)(r, c, ld); for (int j = 0; j < c; j++) for (int i = 0; i < r; i++) m[j*ld+i] = (T)td((*k)++); return m; }
static void FN(out)(const char *key, const T *m, int r, int c, int ld) { double *t = malloc(sizeof(double) * (size_t)(r*c+1)); for (int j = 0; j < c; j++) for (int i = 0; i < r; i++) t[j*r+i] = m[j*ld+i]; jdarr(key, t, (size_t)(r*c), SC, -1); free(t); }
static void FN(scal)(const char *key, double x) { jdarr(key, &x, 1, SC, -1); }
static void FN(run)(void) {
    const char *op = TOK[0]; int k = 2, g = 1;
    if (!strcmp(op, "assign")) {
        int m = (int)ti(k), n = (int)ti(k+1), ld = (int)ti(k+2); k += 3; T *A = FN(rd)(m, n, ld, &k); T *B = FN(gm)(m, n, ld); memcpy(B, A, sizeof(T) * (size_t)(ld*n+4));
        ssize_t *ra = malloc(sizeof(ssize_t) * (size_t)(m)), *ca = malloc(sizeof(ssize_t) * (size_t)(n)); for (int i = 0; i < m; i++) ra[i] = -7; for (int i = 0; i < n; i++) ca[i] = -7;
        LA(assign_hungarian)((size_t)m, (size_t)n, A, (size_t)ld, ra, ca);
        g = !memcmp(A, B, sizeof(T) * (size_t)(ld*n+4)); jarr("ra", ra, (size_t)m); jarr("ca", ca, (size_t)n); free(A); free(B); free(ra); free(ca);
    } else if (!strcmp(op, "max2min")) {
        int m = (int)ti(k), n = (int)ti(k+1), ld = (int)ti(k+2); k += 3; T *A = FN(rd)(m, n, ld, &k); LA(assign_hungarian_max2min)((size_t)m, (size_t)n, A, (size_t)ld); g = FN(gok)(A, m, n, ld); FN(out)("x", A, m, n, ld); free(A);
    } else if (!strcmp(op, "lls")) {
        int m = (int)ti(k), n = (int)ti(k+1), p = (int)ti(k+2), lda = (int)ti(k+3), ldb = (int)ti(k+4), ldx = (int)ti(k+5); k += 6;
        T *A = FN(rd)(m, n, lda, &k), *b = FN(rd)(m, p, ldb, &k), *x = FN(gm)(n, p, ldx);
        int r = LA(lls)((size_t)m, (size_t)n, (size_t)p, A, (size_t)lda, b, (size_t)ldb, x, (size_t)ldx);
        g = FN(gok)(A, m, n, lda) && FN(gok)(b, m, p, ldb) && FN(gok)(x, n, p, ldx); jl(",\"r\":%d", r); FN(out)("x", x, n, p, ldx); free(A); free(b); free(x);
    } else if (!strcmp(op, "qr")) {
        int m = (int)ti(k), n = (int)ti(k+1), lda = (int)ti(k+2), ldq = (int)ti(k+3), ldr = (int)ti(k+4), w = (int)ti(k+5); k += 6;
        T *A = FN(rd)(m, n, lda, &k), *Q = FN(gm)(m, m, ldq), *R = FN(gm)(m, n, ldr);
        int r = LA(qr)((size_t)m, (size_t)n, A, (size_t)lda, w & 1 ? Q : NULL, (size_t)ldq, w & 2 ? R : NULL, (size_t)ldr);
        g = FN(gok)(A, m, n, lda) && (!(w & 1) || FN(gok)(Q, m, m, ldq)) && (!(w & 2) || FN(gok)(R, m, n, ldr)); jl(",\"r\":%d", r);
        if (w & 1) FN(out)("q", Q, m, m, ldq); else jl(",\"q\":[]");
        if (w & 2) FN(out)("x", R, m, n, ldr); else jl(",\"x\":[]");
        free(A); free(Q); free(R);
    } else if (!strcmp(op, "svd")) {
        int m = (int)ti(k), n = (int)ti(k+1), lda = (int)ti(k+2), ldu = (int)ti(k+3), ldv = (int)ti(k+4), w = (int)ti(k+5), mn = m < n ? m : n; k += 6;
        T *A = FN(rd)(m, n, lda, &k), *U = FN(gm)(m, m, ldu), *V = FN(gm)(n, n, ldv), *S = FN(gm)(mn, 1, mn);
        int r = LA(svd)((size_t)m, (size_t)n, A, (size_t)lda, w & 1 ? U : NULL, (size_t)ldu, S, w & 2 ? V : NULL, (size_t)ldv);
        g = FN(gok)(A, m, n, lda) && FN(gok)(S, mn, 1, mn) && (!(w & 1) || FN(gok)(U, m, m, ldu)) && (!(w & 2) || FN(gok)(V, n, n, ldv)); jl(",\"r\":%d", r);
        FN(out)("s", S, mn, 1, mn);
        if (w & 1) FN(out)("u", U, m, m, ldu); else jl(",\"u\":[]");
        if (w & 2) FN(out)("v", V, n, n, ldv); else jl(",\"v\":[]");
        free(A); free(U); free(V); free(S);
    } else if (!strcmp(op, "eev")) {
        int n = (int)ti(k), lda = (int)ti(k+1), ldl = (int)ti(k+2), ldr = (int)ti(k+3), w = (int)ti(k+4); k += 5;
        T *A = FN(rd)(n, n, lda, &k), *L = FN(gm)(n, n, ldl), *R = FN(gm)(n, n, ldr), *wr = FN(gm)(n, 1, n), *wi = FN(gm)(n, 1, n);
        int r = LA(eev)((size_t)n, A, (size_t)lda, wr, wi, w & 1 ? L : NULL, (size_t)ldl, w & 2 ? R : NULL, (size_t)ldr);
        g = FN(gok)(A, n, n, lda) && FN(gok)(wr, n, 1, n) && FN(gok)(wi, n, 1, n) && (!(w & 1) || FN(gok)(L, n, n, ldl)) && (!(w & 2) || FN(gok)(R, n, n, ldr)); jl(",\"r\":%d", r);
        FN(out)("wr", wr, n, 1, n); FN(out)("wi", wi, n, 1, n); jl(",\"pr\":["); for (int i = 0; i < n; i++) jl("%s%d", i ? "," : "", wi[i] != 0); jl("]");
        if (w & 1) FN(out)("u", L, n, n, ldl); else jl(",\"u\":[]");
        if (w & 2) FN(out)("v", R, n, n, ldr); else jl(",\"v\":[]");
        free(A); free(L); free(R); free(wr); free(wi);
    } else if (!strcmp(op, "sysv")) {
        int up = (int)ti(k), n = (int)ti(k+1), p = (int)ti(k+2), lda = (int)ti(k+3), ldb = (int)ti(k+4); k += 5; T *A = FN(rd)(n, n, lda, &k), *b = FN(rd)(n, p, ldb, &k);
        /* the other triangle must not matter */
        for (int j = 0; j < n; j++) for (int i = 0; i < n; i++) if (up ? i > j : i < j) A[j*lda+i] = (T)55;
        int ip[16]; int r = LA(sysv)(up ? "U" : "L", (size_t)n, (size_t)p, A, (size_t)lda, ip, b, (size_t)ldb);
        g = FN(gok)(A, n, n, lda) && FN(gok)(b, n, p, ldb); for (int j = 0; j < n; j++) for (int i = 0; i < n; i++) if ((up ? i > j : i < j) && A[j*lda+i] != (T)55) g = 0;
        jl(",\"r\":%d", r); FN(out)("x", b, n, p, ldb); free(A); free(b);
    } else if (!strcmp(op, "stats")) {
        int m = (int)ti(k), n = (int)ti(k+1), lda = (int)ti(k+2), lde = (int)ti(k+3); k += 4; T *A = FN(rd)(m, n, lda, &k), *E = FN(gm)(m, m, lde), *cm = FN(gm)(m, 1, m), *rm = FN(gm)(n, 1, n);
        LA(colmean)((size_t)m, (size_t)n, A, (size_t)lda, cm); LA(rowmean)((size_t)m, (size_t)n, A, (size_t)lda, rm); LA(colcov)((size_t)m, (size_t)n, A, (size_t)lda, cm, E, (size_t)lde);
        g = FN(gok)(A, m, n, lda) && FN(gok)(E, m, m, lde) && FN(gok)(cm, m, 1, m) && FN(gok)(rm, n, 1, n);
        FN(out)("x", cm, m, 1, m); FN(out)("y", rm, n, 1, n); FN(out)("e", E, m, m, lde); free(A); free(E); free(cm); free(rm);
    } else if (!strcmp(op, "order")) {
        int n = (int)ti(k), inc = (int)ti(k+1), u = (int)ti(k+2); k += 3; T *x = FN(rd)(1, n, inc, &k), *y = FN(gm)(1, n, inc), *z = malloc(sizeof(T) * (size_t)n); memcpy(y, x, sizeof(T) * (size_t)(inc*n+4)); for (int i = 0; i < n; i++) z[i] = x[i*inc];
        FN(scal)("med", LA(median)((size_t)n, x, (size_t)inc)); FN(scal)("nmed", LA(nmedian)((size_t)n, z)); FN(scal)("mad", LA(mad)((size_t)n, (T)u, x, (size_t)inc));
        jl(",\"lo\":%zu,\"hi\":%zu", LA(minloc)((size_t)n, x, (size_t)inc), LA(maxloc)((size_t)n, x, (size_t)inc));
        double sd = n > 1 ? LA(vecstd)((size_t)n, x, (size_t)inc, (T)u) : 0; FN(scal)("var", sd*sd);
        g = !memcmp(x, y, sizeof(T) * (size_t)(inc*n+4)); free(x); free(y); free(z);
    } else if (!strcmp(op, "cols")) {
        int m = (int)ti(k), n = (int)ti(k+1), lda = (int)ti(k+2); k += 3; T *A = FN(rd)(m, n, lda, &k), *u = FN(rd)(m, 1, m, &k); double d = LA(mad2)((size_t)m, (size_t)n, u, A, (size_t)lda); size_t pi, pj; double mx = LA(mat_max)((size_t)m, (size_t)n, A, (size_t)lda, &pi, &pj);
        T *B = FN(gm)(n, m, n + 1); LA(transpose)((size_t)m, (size_t)n, A, (size_t)lda, B, (size_t)(n + 1));
        g = FN(gok)(A, m, n, lda) && FN(gok)(B, n, m, n + 1); FN(scal)("x", d*d); FN(scal)("y", mx); jl(",\"i\":%zu,\"j\":%zu", pi, pj); FN(out)("t", B, n, m, n + 1); free(A); free(u); free(B);
    } else if (!strcmp(op, "pair")) {
        int n = (int)ti(k), ix = (int)ti(k+1), iy = (int)ti(k+2), iz = (int)ti(k+3), un = (int)ti(k+4), ud = (int)ti(k+5); k += 6; T *x = FN(rd)(1, n, ix, &k), *y = FN(rd)(1, n, iy, &k), *z = FN(gm)(1, n, iz);
        LA(lerp)((size_t)n, (T)un / (T)ud, x, (size_t)ix, y, (size_t)iy, z, (size_t)iz); double a = LA(angle)((size_t)n, x, (size_t)ix, y, (size_t)iy);
        FN(out)("x", z, 1, n, iz); FN(scal)("d", LA(ssd)((size_t)n, x, (size_t)ix, y, (size_t)iy)); FN(scal)("c", cos(a)); FN(scal)("s", sin(a)); jl(",\"rng\":%d", a >= -1e-6 && a <= 3.141594);
        g = FN(gok)(x, 1, n, ix) && FN(gok)(y, 1, n, iy) && FN(gok)(z, 1, n, iz); free(x); free(y); free(z);
    } else if (!strcmp(op, "spline")) { /* ord n inc tf t ; n times ord+1 coefficients ; t in quarters */
        int o = (int)ti(k), n = (int)ti(k+1), ic = (int)ti(k+2); double tf = td(k+3)/4, t = td(k+4)/4; k += 5;
        T *b[6], *a[3], *r[3]; for (int i = 0; i < 6; i++) b[i] = FN(gm)(1, n, ic); for (int i = 0; i < 3; i++) { a[i] = FN(gm)(1, n, 1); r[i] = FN(gm)(1, n, ic); }
        for (int i = 0; i < n; i++) { double c[6] = {0}; for (int j = 0; j <= o; j++) c[j] = td(k++);
            for (int e = 0; e < 2; e++) { double u = e ? tf : 0; b[3*e][i*ic] = (T)(c[0]+u*(c[1]+u*(c[2]+u*(c[3]+u*(c[4]+u*c[5]))))); b[3*e+1][i*ic] = (T)(c[1]+u*(2*c[2]+u*(3*c[3]+u*(4*c[4]+u*5*c[5])))); b[3*e+2][i*ic] = (T)(2*c[2]+u*(6*c[3]+u*(12*c[4]+u*20*c[5]))); } }
        size_t N = (size_t)n, I = (size_t)ic;
        if (o == 3) { LA(3spline_param)(N, (T)tf, b[0], I, b[1], I, b[3], I, b[4], I, a[0], a[1]); LA(3spline)(N, (T)t, b[0], I, b[1], I, a[0], a[1], r[0], I, r[1], I, r[2], I); }
        else { LA(5spline_param)(N, (T)tf, b[0], I, b[1], I, b[2], I, b[3], I, b[4], I, b[5], I, a[0], a[1], a[2]); LA(5spline)(N, (T)t, b[0], I, b[1], I, b[2], I, a[0], a[1], a[2], r[0], I, r[1], I, r[2], I); }
        const char *kn[3] = {"x", "y", "z"}; for (int i = 0; i < 3; i++) { FN(out)(kn[i], r[i], 1, n, ic); g = g && FN(gok)(r[i], 1, n, ic) && FN(gok)(a[i], 1, n, 1); }
        for (int i = 0; i < 6; i++) { g = g && FN(gok)(b[i], 1, n, ic); free(b[i]); }
        for (int i = 0; i < 3; i++) { free(a[i]); free(r[i]); }
    } else if (!strcmp(op, "plane")) {
        int m = (int)ti(k), n = (int)ti(k+1), lda = (int)ti(k+2); k += 3; T *A = FN(rd)(m, n, lda, &k), *x = FN(gm)(m + 1, 1, m + 1); LA(colfit)((size_t)m, (size_t)n, A, (size_t)lda, x);
        g = FN(gok)(A, m, n, lda) && FN(gok)(x, m + 1, 1, m + 1); FN(out)("x", x, m + 1, 1, m + 1); free(A); free(x);
    } else bad_script("op", op);
    jl(",\"g\":%d", g);
}
#undef CAT
#undef CAT_
#undef LA
#undef FN
