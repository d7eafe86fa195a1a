import vbuild
from tfgen import *
AXES = [(1,0,0,1), (0,1,0,1), (0,0,1,1), (0,0,-1,1), (3,4,0,5), (0,-3,4,5), (1,2,2,3), (2,-1,2,3)]
ANG = [(0,1), (1,1), (-1,1), (1,2), (-1,3), (2,1), (1,10), (3,1)]
TINY = [(1,100), (-1,500), (1,1500), (1,60), (2,45)]
PS = [(0,0,0,1), (1,0,0,1), (0,2,-1,1), (3,1,2,1), (-1,1,1,2)]
HS = [(0,1), (1,1), (-3,2), (5,1)]
EXP = "qutr_expv qv_expv tfmat_expv duqu_exp pure_exp qexp qpexp rotmat_expv rotvec2quat".split()
STEP = {"qutr": "qutr_svel qv_svel qutr_sdiff qutr_vel2diff+sdiff qutr_twist2vel+svel", "tfmat": "tfmat_svel tfmat_diff+svel",
        "duqu": "duqu_svel duqu_stwist duqu_vel2twist+stwist duqu_vel2diff+sdiff duqu_twist2diff+diff2vel+svel duqu_twist2vel+svel duqu_jac+sdiff",
        "quat": "qsvel qsdiff qvel2diff+qsdiff qdiff2vel+qsvel qsacc qvelrk4", "rotmat": "rotmat_svel rotmat_diff+svel"}
ROOT = {"qutr": "qutr qv", "tfmat": "tfmat", "duqu": "duqu duqu_lnv", "quat": "quat qpow", "rotmat": "rotmat"}
def screw(rng, a): return "%s %s %s %s" % (f(rng.choice(AXES)), f(a), f(rng.choice(HS)), f(rng.choice(PS)))
def run(c):
    rng = c.rng; exe = vbuild.build_driver("tf.c")
    sc = []
    for api in EXP:
        for a in ANG + TINY:
            for _ in range(c.pick(8, 60)): sc.append(["exp %s %s" % (api, screw(rng, a))])
    # angles below the thresholds of the series expansions
    for api in EXP:
        for a in [(1, 5000), (-1, 14000), (1, 20000), (1, 16500)]:
            for ax in AXES[:3]:
                for p in ((0,0,0,1), (1,0,0,1), (0,2,-1,1), (4000,0,0,1), (0,-5000,0,1), (0,0,3000,1), (2000,2000,-3000,1)): sc.append(["exp %s %s %s %s %s" % (api, f(ax), f(a), rng.choice(["0 1", "1 1", "-1 1"]), f(p))])
    c.conform("TF", exe, sc, "tf-exp")
    sc = []
    for rep, apis in sorted(STEP.items()):
        for api in apis.split():
            for a in ANG + TINY:
                for _ in range(c.pick(5, 40)):
                    g = G(rng); k = g.mk(rep, rng.choice(Q90 + (QGEN if a in ANG[:3] else [])), rng.choice(VS[:6]))
                    g.do("step %s %d %s %s" % (api, k, rng.choice(["1 1", "1 2", "2 1", "1 100"]), screw(rng, a)), rep)
                    if a in ((1,1), (-1,1)): g.do("step %s %d 1 1 %s" % (rng.choice(apis.split()), 2, "0 0 1 1 1 1 1 1 1 2 0 1"), rep)
                    sc.append(g.out)
    c.conform("TF", exe, sc, "tf-step")
    sc = []
    for rep, apis in sorted(ROOT.items()):
        for api in apis.split():
            for q in Q90 + QGEN + QEDGE:
                if q == (0,0,0,-1): continue # -1 has no unique logarithm
                for n in (1, 2, 5): sc.append(["mk %s %s %s" % (rep, f(q), f(rng.choice(VS[:6]))), "root %s 1 %d" % (api, n)])
    c.conform("TF", exe, sc, "tf-root")
    sc = []
    for api in ("qslerp", "qslerpalg", "diff", "diffalg", "chain"):
        for u, tot, km in [((1,0,0,4), 4, 4), ((0,1,0,5), 4, 4), ((0,0,-1,4), 4, 4), ((1,1,-1,9), 4, 4), ((1,0,0,60), 2, 2), ((0,2,0,90), 2, 2), ((1,1,0,1), 1, 1), ((0,0,1,1), 1, 1), ((0,0,0,1), 4, 4), ((0,0,1,4000), 2, 1), ((0,-1,0,4000), 5, 1), ((1,0,0,9000), 3, 1), ((0,0,1,2), 2, 2), ((1,2,2,6), 2, 2), ((0,0,1,2), 3, 3), ((1,0,0,4), 6, 6), ((1,2,2,6), 3, 3), ((0,2,0,7), 5, 4), ((0,0,5,1), 1, 1), ((0,1,0,3), 4, 4), ((-1,0,0,3), 4, 4)]:
            for q in Q90[:12] + ([] if u[3] > 9 else [(1,2,0,2), (0,1,0,2)]):
                for flip in (0, 1):
                    k = rng.randrange(0, km + 1) if api.startswith("qsl") else (rng.randrange(1, min(km + 1, tot)) if tot > 1 else None)
                    if k is not None: sc.append(["slerp %s %s %s %d %d %d" % (api, f(q), f(u), k, tot, flip)])
    for q in Q90 + QGEN:
        for u in [(1,0,0,5), (0,1,0,6), (0,1,-1,9)]:
            for n in (1, 2): sc.append(["avg %s %s %d %d %d" % (f(q), f(u), n, rng.randrange(2), rng.randrange(2))])
    c.conform("TF", exe, sc, "tf-interp")
    sc = []
    W = [(0,0,0), (1,0,0), (0,-2,0), (1,2,3), (-2,1,0), (0,3,-1)]
    for rep in ("quat", "rotmat", "qutr", "tfmat", "duqu"):
        for q in QINT:
            for _ in range(c.pick(6, 30)):
                l = ["mk %s %s %s" % (rep, f(q), f(rng.choice(VS))), "vdiff x 1 %s %s" % (f(rng.choice(W)), f(rng.choice(W)))]
                if rep in ("qutr", "duqu"): l.append("twist %s 1 %s %s" % (rng.choice("ab"), f(rng.choice(W)), f(rng.choice(W))))
                sc.append(l)
    for q in QGEN + Q90[:16] + [(1,0,0,500), (1,2,0,40), (0,0,1,3000)]:
        if q[3] <= 0: continue
        for w in W[1:]: sc.append(["dlog %s %s" % (f(q), f(w))])
    for _ in range(c.pick(200, 1500)):
        n = rng.randrange(1, 9); sc.append(["relx %s %d %d %s" % (f(rng.choice(Q90 + QGEN[:8])), rng.randrange(2), n, " ".join(str(rng.randrange(-9, 10)) for _ in range(6 * n)))])
    c.conform("TF", exe, sc, "tf-vel")
