"""Solver options, Jacobian steps, limit states and joint paths along workspace trajectories."""
import vbuild
from scenegen import *
QS = ["0 0 0 1", "0 0 1 1", "1 0 0 1", "0 -1 0 1", "1 1 1 1", "0 0 1 0", "1 0 0 0", "1 0 0 2", "0 0 -1 3", "1 -1 1 -1"]
def I(rng, k, m): return " ".join(str(rng.randrange(-m, m + 1)) for _ in range(k))
def chain(rng, n):
    root = rng.choice([-1, 0]); n += root + 1       # a chain from the first frame leaves its joint out
    s = Scene(rng, 1, 1); out = ["create"]; names = []
    s.budget = 0
    for i in range(n):
        nm = "f%d" % i; out.append(s.add(nm, names[-1] if names else "", rng.choice(["revolute", "prismatic"]), "-")); names.append(nm)
    extra = "x0"; out.append(s.add(extra, rng.choice(["", names[0]]), "prismatic", "-"))
    out.append("init 1")
    for c in names + [extra]:
        if rng.random() < .7: lo, hi = rng.choice([(-4, 4), (-2, 3), (0, 4), (-3, -1), (-1, 2), (2, 2)]); out.append("limit 1 %s pos %d %d" % (c, lo, hi))
        for k in ("vel", "acc", "eff"):
            if rng.random() < .4: lo, hi = rng.choice([(-1, 1), (-3, 3), (-2, 5), (1, 7)]); out.append("limit 1 %s %s %d %d" % (c, k, lo, hi))
    out.append("chain 1 %d %d" % (root, n - 1))
    return out, s
def jac(rng, n):
    """n integer columns and vectors of the null space"""
    cols, z = [], []
    for i in range(n):
        x = rng.random()
        if x < .3:
            cols.append([0] * 6); v = [0] * n; v[i] = 1; z.append(v)
        elif x < .6 and any(any(c) for c in cols):
            j = rng.choice([k for k in range(i) if any(cols[k])]); b = cols[j]; m = rng.choice([1, -1, 2])
            cols.append([m * y for y in b]); v = [0] * n; v[i] = 1; v[j] = -m; z.append(v)
        elif x < .8: c = [0] * 6; c[rng.randrange(6)] = rng.choice([1, -1, 2, 3]); cols.append(c)
        else: cols.append([rng.randrange(-2, 3) for _ in range(6)])
    return cols, z
def step(rng, n):
    cols, z = jac(rng, n); va = [rng.randrange(-4, 5) for _ in range(3)]; k = rng.choice([0, 0, 1, -1]); vr = va if k else [rng.randrange(-4, 5) for _ in range(3)]
    if rng.random() < .3: cols = [[0] * 6 for _ in range(n)]; z = [[int(i == j) for j in range(n)] for i in range(n)]
    f = lambda v: " ".join(map(str, v))
    return "kpstep %d %d %d %d %d %s %d %d %s %s %d %s %d %s %s %s" % (n, rng.randrange(4), rng.choice([0, 0, 1]), rng.randrange(5), rng.randrange(5), rng.choice(QS), rng.randrange(3), k, f(va), f(vr), rng.choice([1, 2]), I(rng, 6, 3), len(z), I(rng, n, 8), " ".join(f(c) for c in cols), " ".join(f(v) for v in z))
def parm(rng):
    n = rng.choice([1, 2, 3, 4, 5, 7, 8]); out, s = chain(rng, n)
    for _ in range(rng.choice([1, 2])):
        out.append("kpnew"); gain = False; ref = False
        for _ in range(rng.choice([6, 10, 16])):
            x = rng.random()
            if x < .2: out.append("kpcenter 1 1 %d %d" % (rng.choice([1, 2, 3, -1]), rng.choice([1, 2]))); gain = ref = True
            elif x < .45:
                k = rng.choice(["ref", "gain", "seed"])
                if k == "ref" and not gain: k = "gain"
                out.append("kptake %s %s %d %s" % (k, rng.choice(["copy", "steal", "borrow", "borrow"]), n, I(rng, n, 8))); gain |= k == "gain"
            elif x < .6: out.append("kppoke %s %s" % (rng.choice(["ref", "gain", "seed"]), I(rng, n, 8)))
            elif x < .65: out.append("kpseed 1 1")
            else: out.append(step(rng, n))
        if rng.random() < .5: out.append("kpdel")
    for api in ("sg", "limits"): out.append("kplim 1 %s %d" % (api, rng.randrange(3)))
    nq, np = rng.randrange(1, 5), rng.randrange(1, 6); out.append("kppts %d %d %s" % (nq, np, I(rng, nq * np, 50))); out.append("mem")
    return out
def path(rng):
    out = []
    for _ in range(3):
        lim = rng.choice([0, 0, 1]); off = I(rng, 3, 4) if rng.random() < .4 and not lim else "0 0 0"
        wk = 0 if off != "0 0 0" else rng.randrange(-1, 2)
        dl = I(rng, 3, 6)
        if dl == "0 0 0" and not wk: dl = "1 0 0"                    # equal way points are one way point
        lo = [rng.randrange(-8, 3) for _ in range(3)]; hi = [l + rng.randrange(0, 8) for l in lo]
        out.append("kpath %d %d %d %d %s %s %s %s %s %d %d %d %s %s %d" % (rng.randrange(2), rng.choice([4, 5, 8, 10, 16]), rng.choice([0, 1, 2, 4, 6]), rng.randrange(6), " ".join(rng.choice(["1", "-1"]) for _ in range(3)), I(rng, 3, 4), I(rng, 3, 4), off, dl,
                   rng.randrange(-1, 2), wk, lim, " ".join(map(str, lo)), " ".join(map(str, hi)), rng.randrange(2)))
    return out + ["mem"]
def rand(rng): return parm(rng) if rng.random() < .7 else path(rng)
def script(rng, h):
    """a behaviour of IkParmMC, with a step after every change that leaves the object usable"""
    out, on = [], set()
    for e in h:
        o = e["op"]
        if o == "kpnew": out.append("kpnew"); on = {"up"}
        elif o == "kpdel": out.append("kpdel"); on = set()
        elif o == "kptake": out.append("kptake %s %s 1 %d" % (e["kind"], e["how"], e["v"][0])); on.add(e["kind"])
        else: out.append("kppoke %s %d" % (e["kind"], e["v"][0]))
        if "up" in on and ("gain" in on or "ref" not in on): out.append(step(rng, 1))
    return out + ["kpdel", "mem"]
def run(c):
    exe = vbuild.build_driver("ikparm.c")
    c.model_check("IkParmMC", c.pick("IkParmMC.cfg", "IkParmMCT.cfg"))
    H = c.generate("IkParmMC", "IkParmSim.cfg", simulate=(c.pick(200, 2000), 13))
    c.conform("IkParm", exe, [script(c.rng, h) for h in H], "ikparm-gen")
    c.conform("IkParm", exe, [rand(c.rng) for _ in range(c.pick(500, 6000))], "ikparm")
