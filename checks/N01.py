import vbuild
def J(*a): return " ".join(str(x) for y in a for x in (y if isinstance(y, (list, tuple)) else [y]))
G = 10**9
def t(rng, far=10**9):
    """a normalised time: seconds, nanoseconds"""
    return rng.choice([0, 0, 1, -1, 2, rng.randint(-5, 5), rng.randint(-100000, 100000), rng.randint(-far, far)]), rng.choice([0, 1, G - 1, G//2, rng.randrange(G), rng.randrange(G)//1000*1000])
def e8(rng): return rng.choice([0, 1, -1, 8, -8, rng.randint(-20, 20), rng.randint(-300, 300)])
def dirs(rng, n):
    k = rng.random(); b = rng.randrange(12); turn = lambda: 100*rng.choice([3, 3, 3, 2, 4, 0, 6])
    if k < .2: return [b + turn() for _ in range(n)]
    if k < .5: return [(b + rng.choice([0, 0, 1, -1])) % 12 + turn() for _ in range(n)]
    if k < .6: return [(b + 6*(i % 2)) % 12 + turn() for i in range(n)]
    return [rng.randrange(12) + turn() for _ in range(n)]
def cmd(rng):
    o = rng.choice(["norm", "time2", "time2", "far", "sec", "mod", "mod", "ang", "scalar", "scalar", "vec", "rand", "stat", "cov", "maha", "excl", "excl", "circ", "circ", "cexcl", "gauss", "endian", "endian", "arm", "arm", "hsv", "hsv", "tiny"] + (["clock"] if rng.random() < .3 else []))
    if o == "norm": return J(o, rng.randint(-1000, 1000), rng.choice([0, 1, -1, 2, rng.randint(-9, 9)]), rng.choice([0, -1, 1, G - 1, 1 - G, rng.randint(1 - G, G - 1)]))
    if o == "time2":
        a = t(rng); b = rng.choice([t(rng), a, (a[0], t(rng)[1]), (t(rng)[0], a[1])]); return J(o, a, b)
    if o == "far":
        f = lambda: [rng.choice([0, 1, 2048, 4096, 2**12 - 1, rng.randrange(2**12)]), rng.choice([0, 1, rng.randrange(2**20)]), rng.choice([0, 1, G - 1, rng.randrange(G)])]; a = f(); b = f()
        for i in range(3): b[i] = rng.choice([a[i], b[i]])
        return J(o, a, b)
    if o == "sec": return J(o, rng.choice([0, 1, -1, 511, 512, -512, -513, rng.randint(-10**4, 10**4), rng.randint(-10**9, 10**9)]))
    if o == "clock": return J(o, rng.choice([(1000, 5), (-1, 0), (-1, G - 1), (0, G - 1), (-7, 3)]) if rng.random() < .8 else (99, 999999999))
    if o == "mod":
        b = rng.choice([1, -1, 2, -2, 3, -3, 7, 8, -8, rng.choice([-1, 1])*rng.randint(1, 1000)]); return J(o, rng.choice([0, b, -b, 2*b, b + 1, b - 1, 1 - b, rng.randint(-1000, 1000), rng.randint(-10**6, 10**6)]), b)
    if o == "ang": a = lambda: rng.choice([0, 90, 180, -180, 181, -181, 360, -360, 540, 720, 359, rng.randint(-400, 400), rng.randint(-10**5, 10**5)]); return J(o, a(), a())
    if o == "tiny": return J(o, rng.choice([25, 30, 50, 52, 53, 54, 60, 100, 1000, 1070]))
    if o == "scalar":
        a, b = sorted((e8(rng), e8(rng))); v = rng.choice([e8(rng), a, b, (a + b)//2, a - 1, b + 1]); return J(o, v, a, b, rng.choice([e8(rng), v, v + a, v - a]))
    if o == "vec":
        n = rng.choice([0, 1, 2, 3, 5, 9]); a, b = sorted((e8(rng), e8(rng))); x = [rng.choice([a, b, e8(rng)]) for _ in range(n)]; tol = rng.choice([0, 1, 5]); y = [v + rng.choice([0, 0, 0, tol, -tol, rng.choice([tol + 1, -tol - 1, 0, 0])]) for v in x]; return J(o, a, b, tol, n, x, y)
    if o == "rand": a, b = sorted((e8(rng), e8(rng))); return J(o, rng.choice([0, 1, 2, 5, 20]), a, b)
    if o == "stat": n = rng.choice([2, 3, 4, 7, 20]); b = rng.choice([0, 100, -1000]); return J(o, n, [b + rng.randint(-9, 9)*rng.choice([1, 1, 10]) for _ in range(n)])
    if o == "cov": m, n = rng.randint(1, 5), rng.randint(2, 8); return J(o, m, n, [rng.randint(-30, 30) for _ in range(m*n)])
    if o == "maha":
        m = rng.randint(1, 5); A = [[rng.randint(-3, 3) for _ in range(m)] for _ in range(m)]; P = [[sum(A[i][k]*A[j][k] for k in range(m)) + (i == j) for j in range(m)] for i in range(m)]; return J(o, m, [rng.randint(-9, 9) for _ in range(2*m)], [P[i][j] for j in range(m) for i in range(m)])
    if o in ("excl",):
        n = rng.choice([4, 6, 9, 14]); b = rng.choice([0, 50, -200]); x = [b + rng.randint(-9, 9) for _ in range(n)]
        for _ in range(rng.choice([0, 1, 1, 2])): x[rng.randrange(n)] = b + rng.choice([60, -60, 200, -300])
        return excl(rng, x)
    if o == "circ": n = rng.choice([1, 1, 2, 3, 5, 9, 30]); return J(o, n, dirs(rng, n))
    if o == "cexcl": return cexcl(rng)
    if o == "gauss": return J(o, rng.choice([1, 1024, 512, rng.randint(1, 1024)]), rng.choice([0, 256, 512, 768, 1024, rng.randint(0, 1024)]))
    if o == "endian":
        k = rng.randrange(8); n = [2, 2, 4, 4, 8, 8, 4, 8][k]; b = [rng.choice([0, 1, 127, 128, 255, rng.randrange(256)]) for _ in range(n)]
        if k == 6: b[0] &= 0xbf; b[3] &= 0xbf     # both orders are numbers
        if k == 7: b[0] &= 0xbf; b[7] &= 0xbf
        return J(o, k, b)
    if o == "arm": a, b = rng.randint(1, 5), rng.randint(1, 5); r = 4*(a + b); return J(o, a, b, rng.choice([[0, r - 1], [r, 0], [-r, 0], [0, rng.randint(1, 30)], [rng.randint(-30, 30), 0]] + 8*[[rng.randint(-r, r), rng.randint(-r, r)]]))
    if o == "hsv": return J(o, rng.choice([[0, 0, 0], [8, 8, 8], [8, 0, 0], [0, 8, 0], [0, 0, 8], [3, 3, 3]] + 6*[[rng.randint(0, 8) for _ in range(3)]]))
def excl(rng, x):
    """zmin, zmax in halves, such that some elements always stay: simulate, keep a margin"""
    import math
    for _ in range(20):
        lo, hi = -rng.randint(2, 8), rng.randint(2, 8); mu = sum(x)/len(x); sd = math.sqrt(sum((v - mu)**2 for v in x)/(len(x) - 1)); ok = sd > 0; K = rng.randint(1, 5)
        for _ in range(K):
            k = [v for v in x if lo/2*sd - .02 <= v - mu <= hi/2*sd + .02]; s = [v for v in x if lo/2*sd + .02 <= v - mu <= hi/2*sd - .02]
            if len(s) < 3 or len(set(s)) < 3: ok = False; break
            d = math.sqrt(sum((v - mu)**2 for v in k)/(len(k) - 1)); mu = sum(k)/len(k); sd = d
        if ok: return J("excl", lo, hi, K, len(x), x)
    return J("excl", -2000, 2000, 3, len(x), x) if len(set(x)) > 2 else "tiny 60"
def cexcl(rng):
    import math
    for _ in range(30):
        n = rng.choice([4, 6, 9, 14]); b = rng.randrange(12); q = [(b + rng.choice([0, 0, 0, 1, -1, 2, -2] + ([5, 6, 3] if rng.random() < .3 else []))) % 12 + 100*rng.choice([3, 3, 2, 5]) for _ in range(n)]
        U = [(5, 0), (4, 3), (3, 4), (0, 5), (-3, 4), (-4, 3), (-5, 0), (-4, -3), (-3, -4), (0, -5), (3, -4), (4, -3)]
        c = sum(U[i % 100][0] for i in q)/5/n; s = sum(U[i % 100][1] for i in q)/5/n; r = math.hypot(c, s)
        if r < .1 or r > .999: continue
        m = math.atan2(s, c); sd = math.sqrt(-2*math.log(r)); lo, hi = -rng.randint(2, 6), rng.randint(2, 6)
        dx = [math.remainder(math.atan2(U[i % 100][1], U[i % 100][0]) - m, 2*math.pi) for i in q]
        # either reading of the deviation leaves enough
        if all(sum(1 for d in dx if lo/2*sd*f + .01 < d < hi/2*sd*f - .01) >= 3 for f in (1, 1.5)): return J("cexcl", lo, hi, n, q)
    return "tiny 52"
def run(c):
    exe = vbuild.build_driver("util.c")
    c.model_check("UtilMC", "UtilMC.cfg")
    S = [[J("endian", k, b)] for k, n in ((0, 2), (1, 2)) for b in ((x, y) for x in range(0, 256, 5) for y in (0, 1, 127, 128, 255))]
    S += [[J("arm", a, b, x, y) for x in range(-9, 10, 3) for y in range(-9, 10, 3)] for a in (1, 2) for b in (1, 2)]
    S += [[J("mod", a, b) for a in range(-12, 13)] for b in range(-5, 6) if b] + [[J("hsv", r, g, b) for g in range(0, 9, 2) for b in range(0, 9, 2)] for r in range(0, 9, 2)]
    S += [[J("circ", n, [d + 300]*n) for d in range(12)] for n in range(1, 12)] + [[J("ang", a, b) for b in range(-720, 721, 90)] for a in range(-720, 721, 45)]
    S += [["sleep 0 2000000", "clock 1000 0", "clock -1 0"]]
    c.conform("Util", exe, S, "util-grid", timeout=60)
    c.conform("Util", exe, [[cmd(c.rng) for _ in range(20)] + ["mem"] for _ in range(c.pick(700, 12000))], "util-random", timeout=60)
