import vbuild
N = 48
def vec(rng, k, b, ln=None):
    ln = rng.randrange(0, 6) if ln is None else ln
    inc = rng.choice([1, 1, 2, 3, 5]); off = rng.randrange(0, N - max(0, ln - 1)*inc)
    return "vec %d %d %d %d %d" % (k, b, off, ln, inc)
def mat(rng, k, b, r=None, c=None):
    r = rng.randrange(1, 5) if r is None else r; c = rng.randrange(1, 5) if c is None else c
    ld = r + rng.choice([0, 0, 1, 3]); sz = max(1, (c - 1)*ld + r); off = rng.randrange(0, N - sz + 1)
    return "mat %d %d %d %d %d %d" % (k, b, off, r, c, ld)
def dim(s): t = s.split(); return int(t[4]), int(t[5])
def views(rng):
    """Derived views of derived views, used by in-place operations."""
    r, c = rng.randrange(2, 6), rng.randrange(2, 6); o = ["fill %d %d 5" % (b, rng.randrange(10**6)) for b in range(3)] + [mat(rng, 0, 0, r, c), vec(rng, 0, 1, rng.randrange(2, 9))]
    R, C, L = r, c, int(o[-1].split()[4])
    for _ in range(rng.choice([2, 4, 6])):
        x = rng.random()
        if x < .3:
            bad = rng.random() < .2; r0, c0 = rng.randrange(R), rng.randrange(C); r1, c1 = rng.randint(r0 + 1, R) + (bad and rng.randrange(3)), rng.randint(c0 + 1, C) + (bad and rng.randrange(3))
            if bad and rng.random() < .3: r1 = r0
            k = rng.choice([0, 1]); o.append("block %d 0 %d %d %d %d %d" % (k, r0, c0, r1, c1, rng.randrange(2) if r1 > r0 else 0))
            if k == 0 and r1 > r0 and r1 <= R and c1 <= C: R, C = r1 - r0, c1 - c0
            if k == 1 and r1 > r0 and r1 <= R and c1 <= C: o.append("minc 1 %d" % rng.randrange(1, 9))
        elif x < .55:
            t = rng.choice(["row", "col", "diag"]); lim = R if t == "row" else C
            i = rng.randrange(lim + 1) if rng.random() < .15 else rng.randrange(lim)
            o.append("%s 1 0 %d" % (t, i) if t != "diag" else "diag 1 0")
            if t == "diag" or i < lim: o.append(rng.choice(["vset 1 %d" % rng.randrange(9), "vinc 1 3", "vscal 1 -2", "vzero 1", "vnrm2 1", "vdot 1 1"]))
        elif x < .75:
            a = rng.randrange(L + 1); st = rng.choice([1, 1, 2, 3]); n = rng.randrange(0, (L - a)//st + 1); z = a + n*st
            if rng.random() < .15: z = L + rng.randrange(1, 4) if rng.random() < .5 else max(0, a - 1); 
            k = rng.choice([0, 2]); o.append("slice %d 0 %d %d %d" % (k, a, z, st))
            if z <= L and z >= a and (z - a) % st == 0:
                if k == 0: L = (z - a)//st
                o.append("vinc %d 1" % k)
            if L == 0: o.append(vec(rng, 0, 1, 6)); L = 6
        else: o.append(rng.choice(["mset 0 %d %d" % (rng.randrange(9), rng.randrange(9)), "mscal 0 3", "minc 0 2", "mzero 0", "mnrm2 0", "vset 0 4", "vscal 0 2", "dup %d 0 0" % rng.randrange(2)]))
    return o
def ops(rng):
    o = ["fill %d %d 4" % (b, rng.randrange(10**6)) for b in range(3)]
    for _ in range(rng.choice([2, 4, 6])):
        x = rng.random(); bad = rng.random() < .15; j = lambda: (rng.choice([-1, 1]) if bad and rng.random() < .5 else 0); P = lambda v: max(1, v + j())
        a, b = rng.choice([-2, -1, 0, 1, 3]), rng.choice([-1, 0, 1, 2])
        if x < .25:
            n = rng.randrange(0, 7); o += [vec(rng, 0, 0, n), vec(rng, 1, 1, max(0, n + j()))]
            o.append(rng.choice(["vswap 0 1", "vcopy 0 1", "vaxpy 0 1 %d" % a, "vdot 0 1", "vssd 0 1", "vnrm2 0"]))
        elif x < .45:
            r, c, t = rng.randrange(1, 5), rng.randrange(1, 5), rng.randrange(3); n, m = (c, r) if t == 0 else (r, c)
            o += [mat(rng, 0, 0, r, c), vec(rng, 0, 1, P(n)), vec(rng, 1, 2, P(m)), "gemv %d %d 0 0 %d 1" % (t, a, b)]
        elif x < .65:
            m, n, k, ta, tb = rng.randrange(1, 5), rng.randrange(1, 5), rng.randrange(1, 5), rng.randrange(3), rng.randrange(3)
            A = (m, P(k)) if ta == 0 else (P(k), m); B = (k, P(n)) if tb == 0 else (P(n), k)
            o += [mat(rng, 0, 0, *A), mat(rng, 1, 1, *B), mat(rng, 2, 2, P(m), n), "gemm %d %d %d 0 1 %d 2" % (ta, tb, a, b)]
        elif x < .8:
            r, c = rng.randrange(1, 5), rng.randrange(1, 5); o += [mat(rng, 0, 0, r, c), mat(rng, 1, 1, P(r), P(c))]
            o.append(rng.choice(["lacpy %d 0 1" % rng.randrange(3), "mcopy 0 1", "mssd 0 1", "maxpy 0 1 %d" % a, "mnrm2 0"]))
        elif x < .9:
            r, c = rng.randrange(1, 5), rng.randrange(1, 5); o += [mat(rng, 0, 0, r, c), mat(rng, 1, 1, P(c), P(r)), "trans 0 1"]
        else:
            o += [mat(rng, 0, 0), vec(rng, 0, 1), "dup %d 0 0" % rng.randrange(2), rng.choice(["minc 0 %d" % a, "mscal 0 %d" % b, "mset 0 %d %d" % (a, b)])]
        if rng.random() < .4: o.append("fill %d %d 4" % (rng.randrange(3), rng.randrange(10**6)))
        else: o += ["fill %d %d 4" % (b, rng.randrange(10**6)) for b in range(3)]
    return o
def unimod(rng, n):
    """Integer matrix with determinant +-1 and small entries."""
    while 1:
        A = [[int(i == j) for j in range(n)] for i in range(n)]
        for _ in range(rng.choice([1, 3, 6])):
            i, j = rng.sample(range(n), 2) if n > 1 else (0, 0)
            if i != j:
                f = rng.choice([-1, 1]); A[i] = [x + f*y for x, y in zip(A[i], A[j])]
        rng.shuffle(A)
        if max(abs(x) for r in A for x in r) <= 3: return A
def poke(k, A): return "poke %d %s" % (k, " ".join(str(A[i][j]) for j in range(len(A[0])) for i in range(len(A))))
def inverses(rng):
    o = ["fill %d %d 4" % (b, rng.randrange(10**6)) for b in range(3)]
    for _ in range(3):
        x = rng.random(); r, c = rng.randrange(1, 6), rng.randrange(1, 6)
        if x < .3:
            n = rng.randrange(1, 6); A = unimod(rng, n)
            if rng.random() < .3: A[0] = [2*v for v in A[0]]
            if rng.random() < .1 and n > 1: A[0] = A[1]
            o += [mat(rng, 0, 0, n, n + (rng.random() < .1)), ]
            if dim(o[-1])[0] == dim(o[-1])[1]: o.append(poke(0, A))
            o.append("inv 0")
        elif x < .55:
            A = [[rng.choice([-1, 0, 0, 1, 2]) for _ in range(c)] for _ in range(r)]
            o += [mat(rng, 0, 0, r, c), mat(rng, 1, 1, c, r), poke(0, A), rng.choice(["pinv 0 1 -1", "dpinv 0 1 %d" % rng.choice([1, 1, 2, 5])])]
        elif x < .65: o += [mat(rng, 0, 0, r, c), mat(rng, 1, 1, c + rng.choice([0, 1]), r), "%s 0 1 3" % rng.choice(["pinv", "dpinv"])]; o[-1] = o[-1] if dim(o[-2])[0] != c else o[-1].replace("pinv 0 1 3", "pinv 0 1 3").replace("dpinv 0 1 3", "trans 0 1").replace("pinv 0 1 3", "trans 0 1")
        elif x < .85:
            A = [[0]*c for _ in range(r)]; rows = list(range(r)); cols = list(range(c)); rng.shuffle(rows); rng.shuffle(cols)
            for i, j in zip(rows, cols): A[i][j] = rng.choice([-4, -3, -2, -1, 0, 1, 2, 3, 5])
            o += [mat(rng, 0, 0, r, c), mat(rng, 1, 1, c, r), poke(0, A), "dzdpinv 0 1 %d %d" % rng.choice([(5, 2), (3, 2), (7, 2), (1, 2), (9, 1)])]
        else:
            n = rng.randrange(1, 4); A = unimod(rng, n); o += [mat(rng, 0, 0, n, n), mat(rng, 1, 1, n, n), poke(0, A), "dzdpinv 0 1 %d %d" % rng.choice([(40, 1), (1, 1000)])]
    return o
def run(c):
    exe = vbuild.build_driver("mat.c")
    c.model_check("MatMC", "MatMC.cfg")
    n = c.pick(700, 7000)
    c.conform("Mat", exe, [views(c.rng) for _ in range(n)], "mat-views")
    c.conform("Mat", exe, [ops(c.rng) for _ in range(n)], "mat-ops")
    c.conform("Mat", exe, [inverses(c.rng) for _ in range(n)], "mat-inverses")
