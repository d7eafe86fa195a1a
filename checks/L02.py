import vbuild
def ints(rng, n, b): return [rng.randint(-b, b) for _ in range(n)]
def S(*a): return " ".join(" ".join(map(str, x)) if isinstance(x, list) else str(x) for x in a)
def ld(rng, r): return r + rng.choice([0, 0, 1, 3])
def det(M):
    n = len(M)
    if n == 0: return 1
    if n == 1: return M[0][0]
    return sum((-1)**j*M[0][j]*det([r[:j] + r[j+1:] for r in M[1:]]) for j in range(n))
def col(M): return [M[i][j] for j in range(len(M[0])) for i in range(len(M))]
def gen(rng, kind):
    f = rng.choice([0, 0, 1])
    if kind == "assign":
        m, n = rng.choice([(rng.randint(1, 5), rng.randint(1, 5)), (rng.randint(2, 6),)*2, (5, 5)])
        lo, hi = rng.choice([(0, 1), (0, 3), (0, 9), (-3, 3), (-9, 0), (-9, -5), (5, 6), (0, 0), (1, 40), (-40, 40)])
        return S("assign", f, m, n, ld(rng, m), [rng.randint(lo, hi) for _ in range(m*n)])
    if kind == "max2min":
        m, n = rng.randint(1, 5), rng.randint(1, 5); return S("max2min", f, m, n, ld(rng, m), ints(rng, m*n, 9))
    if kind == "lls":
        m, n, p = rng.randint(1, 5), rng.randint(1, 4), rng.randint(1, 3)
        if min(m, n) > 3: n = 3
        return S("lls", f, m, n, p, ld(rng, m), ld(rng, m), ld(rng, n), ints(rng, m*n, 2), ints(rng, m*p, 4))
    if kind == "qr":
        m, n = rng.randint(1, 5), rng.randint(1, 5); return S("qr", f, m, n, ld(rng, m), ld(rng, m), ld(rng, m), rng.choice([3, 3, 1, 2]), ints(rng, m*n, rng.choice([1, 3])))
    if kind == "svd":
        m, n = rng.randint(1, 5), rng.randint(1, 5); return S("svd", f, m, n, ld(rng, m), ld(rng, m), ld(rng, n), rng.choice([3, 3, 1, 2, 0]), ints(rng, m*n, rng.choice([1, 2])))
    if kind == "eev":
        n = rng.randint(1, 4)
        M = [[rng.randint(-2, 2) for _ in range(n)] for _ in range(n)]
        x = rng.random()
        if x < .4: M = [[M[min(i, j)][max(i, j)] for j in range(n)] for i in range(n)]            # symmetric
        elif x < .7: M = [[(M[min(i, j)][max(i, j)]*(1 if i <= j else -1)) if i != j else 1 for j in range(n)] for i in range(n)]  # skew part: complex pairs
        # otherwise triangular with distinct eigenvalues
        else: d = rng.sample(range(-4, 5), n); M = [[d[i] if i == j else (M[i][j] if j > i else 0) for j in range(n)] for i in range(n)]
        return S("eev", f, n, ld(rng, n), ld(rng, n), ld(rng, n), rng.choice([3, 3, 1, 2, 0]), col(M))
    if kind == "sysv":
        n, p = rng.randint(1, 4), rng.randint(1, 3)
        while 1:
            M = [[rng.randint(-3, 3) for _ in range(n)] for _ in range(n)]; M = [[M[min(i, j)][max(i, j)] for j in range(n)] for i in range(n)]
            if det(M): break
        return S("sysv", f, rng.randrange(2), n, p, ld(rng, n), ld(rng, n), col(M), ints(rng, n*p, 4))
    if kind == "inv":
        n = rng.randint(1, 4); M = [[rng.randint(-2, 2) for _ in range(n)] for _ in range(n)]
        if det(M) == 0 and n > 1: M[0] = [0]*n   # exactly singular in floating point too
        return S("inv", 2, n, col(M))
    if kind == "det3": return S("det3", 2, ints(rng, 9, 9))
    if kind in ("dls", "dlsnp"):
        m, n = rng.randint(1, 3), rng.randint(1, 5); x = [m, n, rng.randint(1, 5)] + ints(rng, m*n, 2) + ints(rng, m, 4) + (ints(rng, n, 4) if kind == "dlsnp" else []); return S(kind, 2, x)
    if kind == "np": m, n = rng.randint(1, 4), rng.randint(1, 5); return S("np", 2, m, n, ints(rng, 2*m*n, 3), ints(rng, m, 5), ints(rng, n, 5))
    if kind == "stats": m, n = rng.randint(1, 4), rng.randint(1, 6); return S("stats", f, m, n, ld(rng, m), ld(rng, m), ints(rng, m*n, 5)) if n > 1 else gen(rng, kind)
    if kind == "order": n = rng.randint(1, 9); return S("order", f, n, rng.choice([1, 1, 2, 3]), rng.randint(-3, 3), ints(rng, n, rng.choice([1, 9, 20])))
    if kind == "cols": m, n = rng.randint(1, 4), rng.randint(1, 5); return S("cols", f, m, n, ld(rng, m), ints(rng, m*n, 3), ints(rng, m, 2))
    if kind == "pair":
        n = rng.randint(1, 4); x, y = ints(rng, n, 3), ints(rng, n, 3)
        if rng.random() < .3: y = [rng.choice([-1, 1, 2])*v for v in x]
        return S("pair", f, n, rng.choice([1, 2]), rng.choice([1, 3]), rng.choice([1, 2]), rng.randint(-4, 8), 4, x, y)
    if kind == "plane":
        m = rng.randint(2, 3); n = rng.randint(m, 7)
        while 1:   # points of the plane nrm . p = -d  (d > 0), affinely spanning
            nrm = ints(rng, m, 3); d = rng.choice([1, 2, 3, 6])
            i = next((i for i in range(m) if abs(nrm[i]) == 1), None)
            if i is None: continue
            P = []
            for _ in range(n):
                p = ints(rng, m, 3); p[i] = -nrm[i]*(d + sum(nrm[j]*p[j] for j in range(m) if j != i)); P.append(p)
            import itertools
            if any(det([list(q) for q in c]) for c in itertools.combinations(P, m)): break
        return S("plane", f, m, n, ld(rng, m), [v for p in P for v in p])
    if kind == "pdist":
        n = rng.randint(2, 3); q = ints(rng, n, 3)
        if not any(q): q[0] = 2
        return S("pdist", 2, n, ints(rng, n, 4), q, rng.randint(-5, 5))
    if kind == "vec": n = rng.randint(1, 6); return S("vec", 2, n, rng.randint(-4, 4), ints(rng, n, 9), ints(rng, n, 9))
    if kind == "mat": n = rng.randint(1, 5); m = rng.choice([n, n, rng.randint(1, 5)]); return S("mat", 2, m, n, ints(rng, m*n, 9), ints(rng, n, 9), ints(rng, n, 9))
    if kind == "cross": return S("cross", 2, ints(rng, 6, 9))
    if kind == "terp": n = rng.randint(1, 3); t = rng.sample(range(-4, 5), 3); return S("terp", 2, n, t, rng.randint(-8, 8), ints(rng, 3*n, 4))
    if kind == "spline":
        o = rng.choice([3, 5]); n = rng.randint(1, 3); tf = rng.choice([2, 4, 8, 12]); return S("spline", f, o, n, rng.choice([1, 2, 3]), tf, rng.randint(0, tf), ints(rng, n*(o + 1), 2))
    if kind == "care":   # positive definite weights; (A, B) controllable through full input or companion form
        m = rng.randint(1, 3)
        if rng.random() < .5:
            B = [[2 if i == j else 0 for j in range(m)] for i in range(m)]; C = [[rng.choice([1, 2]) if i == j else 0 for j in range(m)] for i in range(m)]; A = [[rng.randint(-1, 1) for _ in range(m)] for _ in range(m)]; return S("care", 2, m, m, m, col(A), col(B), col(C))
        A = [[1 if j == i + 1 else 0 for j in range(m)] for i in range(m - 1)] + [[rng.randint(-1, 1) for _ in range(m)]]
        if m == 1: return S("care", 2, 1, 2, 2, [A[0][0]], [1, 1], [1, rng.choice([0, 1])])
        B = [[0] for _ in range(m - 1)] + [[1]]; p = rng.choice([q for q in (1, 2, 4) if q != m]); C = [[1 if i == j else (rng.randint(0, 1) if p == 4 else 0) for j in range(m)] for i in range(p)]
        return S("care", 2, m, 1, p, col(A), col(B), col(C))
KINDS = {"assign": 5, "max2min": 1, "lls": 3, "qr": 2, "svd": 2, "eev": 2, "sysv": 2, "inv": 2, "det3": 1, "dls": 2, "dlsnp": 2, "np": 1, "stats": 2, "order": 2, "cols": 1, "pair": 1, "plane": 2, "pdist": 1, "vec": 1, "mat": 1, "cross": 1, "terp": 2, "spline": 2, "care": 2}
def run(c):
    exe = vbuild.build_driver("la.c")
    c.model_check("Hungarian", c.pick("Hungarian.cfg", "HungarianBig.cfg"))
    n = c.pick(160, 2500)
    for grp in (("assign", "max2min"), ("lls", "sysv", "inv", "dls", "dlsnp", "np", "qr", "svd", "eev", "care"), tuple(k for k in KINDS if k not in ("assign", "max2min", "lls", "sysv", "inv", "dls", "dlsnp", "np", "qr", "svd", "eev", "care"))):
        sc = [[gen(c.rng, k) for _ in range(2)] for k in grp for _ in range(n*KINDS[k])]
        c.conform("LA", exe, sc, "la-" + grp[0], timeout=40)
