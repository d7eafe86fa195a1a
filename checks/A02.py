import vbuild
from tfgen import *
ANG = [(0,1), (1,1), (-1,1), (1,0), (1,2), (-2,1), (1,3), (3,1)]
SEQ = "xyz xzy yxz yzx zxy zyx xyx xzx yxy yzy zxz zyz".split()
def run(c):
    rng = c.rng; exe = vbuild.build_driver("tf.c")
    sc = []
    for s in SEQ:
        for a in ANG:
            for b in ANG:
                for e in (ANG if c.thorough else rng.sample(ANG, 3)):
                    g = G(rng); k = g.do("ctor euler %s %d %s %s %s" % (s, rng.randrange(2), f(a), f(b), f(e)), "quat" if g is None else None)
                    g.reps[-1] = "quat" if g.out[-1].split()[3] == "1" else "rotmat"
                    j = g.conv(k)
                    if g.reps[j-1] in ("quat", "rotmat"): g.do("ctor eulerback %d" % j, "rotmat")
                    g.do("ctor eulerback %d" % k, "rotmat")
                    sc.append(g.out)
    # tiny angles and angles next to the gimbal lock
    T = [(1,500), (-1,3000), (1,90), (499,500), (-499,500), (2999,3000), (89,90)]
    for s in SEQ:
        for t in T:
            for p in range(3):
                an = [rng.choice(ANG[:4]) for _ in range(3)]; an[p] = t
                for q in (0, 1): sc.append(["ctor euler %s %d %s" % (s, q, " ".join(f(x) for x in an)), "ctor eulerback 1"])
    for q in Q90 + QGEN + QEDGE:
        for rep in ("quat", "rotmat"): sc.append(["mk %s %s 0 0 0 1" % (rep, f(q)), "ctor eulerback 1"])
    c.conform("TF", exe, sc, "tf-euler")
    sc = []
    for ax in "xyz":
        for a in ANG + T:
            for k in ("quat", "rotmat", "axang"): sc.append(["ctor angle %s%s %s" % (ax, k, f(a))])
            for v in VS: sc.append(["ctor angle %sd %s %s" % (ax, f(a), f(v))])
    for v in VS: sc.append(["ctor xyz2duqu " + f(v)])
    L = [(0,1), (1,1), (-3,2), (5,1)]
    for conv in ("prox", "dist"):
        for rep in ("tfmat", "duqu", "qutr", "qv"):
            for a in ANG:
                for b in ANG:
                    sc.append(["ctor dh %s %s %s %s %s %s" % (conv, rep, f(a), f(rng.choice(L)), f(rng.choice(L)), f(b)), "conv %s 1" % rng.choice(sorted(CONV["qutr" if rep == "qv" else rep]))])
    c.conform("TF", exe, sc, "tf-ctor")
    sc = []
    I = [v for v in [(a, b, d) for a in (-3, 0, 1) for b in (0, 2, -1) for d in (-2, 0, 5)] if any(v)]
    def cr(a, b): return (a[1]*b[2]-a[2]*b[1], a[2]*b[0]-a[0]*b[2], a[0]*b[1]-a[1]*b[0])
    n = 0
    while n < c.pick(600, 5000):
        e, t, u = rng.choice(I), rng.choice(I), rng.choice(I); z = tuple(a - b for a, b in zip(e, t))
        if not any(z) or not any(cr(u, z)): continue
        n += 1; sc.append(["ctor look %s %s %s %s" % (rng.choice(["rotmat", "tfmat", "quat", "qv", "qutr"]), f(e), f(t), f(u))])
    n = 0
    while n < 400:
        u, v = rng.choice(I), rng.choice(I); w = cr(u, v)
        if not any(w): continue
        n += 1; sc.append(["ctor axes %s %s %s" % (rng.choice(["xy", "yz", "zx"]), f(u), f(w))])
    # rotation between two directions; the lengths need not agree
    EQ = [[(1,0,0),(0,1,0),(0,0,1),(-1,0,0),(0,-1,0),(0,0,-1)], [(1,2,2),(2,1,2),(-1,2,2),(2,-2,1),(3,0,0),(0,-3,0),(0,0,3),(-2,-2,-1),(-1,-2,-2)], [(300,400,0),(400,300,0),(0,300,-400),(500,0,0),(0,0,-500),(300,0,400)],
          [(1,1,0),(1,0,1),(0,1,-1),(-1,-1,0),(0,-1,1)], [(1,2,3),(-1,-2,-3),(3,2,1),(2,-3,1),(1,-2,3)], [(2000,1,0),(2000,0,1),(-2000,1,0),(2000,-1,0),(0,2000,-1),(0,2000,1),(1,0,-2000)]]
    for S in EQ:
        for u in S:
            for v in S:
                for su, sv in ((1, 1), (1e-3, 1e-3), (1e-6, 1), (1e3, 1e3), (1e-6, 1e-7), (1e5, 1e-2)): sc.append(["ctor vecs %s %s %r %r" % (f(u), f(v), su, sv)])
    for q in Q90 + QGEN + QEDGE:
        for k in range(4): sc.append(["mk rotmat %s 0 0 0 1" % f(q), "ctor isrot 1 %d" % k])
    c.conform("TF", exe, sc, "tf-frames")
