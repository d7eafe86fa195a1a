import vbuild
from scenegen import *
QS = ["0 0 0 1", "0 0 1 1", "1 0 0 1", "0 -1 0 1", "1 1 1 1", "0 0 1 0", "1 0 0 0", "1 0 0 2", "0 0 -1 3", "1 1 0 0", "1 -1 1 -1"]
def qv(rng): return "%s %d %d %d %d" % (rng.choice(QS), rng.randrange(-4, 5), rng.randrange(-4, 5), rng.randrange(-4, 5), rng.choice([1, 1, 2]))
def scene(rng):
    s = Scene(rng, 1, 1); long = rng.random() < .35; n = rng.choice([7, 8]) if long else rng.choice([2, 3, 4, 5]); names, out, dep = [], [], {"": 0}
    for i in range(n):
        nm = "f%d" % i; par = names[-1] if names and (long or rng.random() < .75) else rng.choice([""] + names[-3:])
        names.append(nm); dep[nm] = dep[par] + 1
        s.budget = 0 if long else s.budget
        out.append(s.add(nm, par, rng.choice(["revolute", "revolute", "prismatic"] if long else ["revolute", "revolute", "prismatic", "fixed"]), "-"))
    out = ["create"] + out + ["init 1"]
    for c in names:
        if s.fr[c][1] != "fixed":
            if rng.random() < .5: lo, hi = rng.choice([(-4, 4), (-2, 3), (0, 4), (-3, -1), (1, 1), (-1, 2)]); out.append("limit 1 %s pos %d %d" % (c, lo, hi))
            if rng.random() < .4: lo, hi = rng.choice([(-1, 1), (-3, 3), (-8, 8), (-2, 1), (-50, 50)]); out.append("limit 1 %s vel %d %d" % (c, lo, hi))
            if rng.random() < .4: lo, hi = rng.choice([(-1, 1), (-3, 3), (-20, 20), (-2, 5), (-200, 200)]); out.append("limit 1 %s acc %d %d" % (c, lo, hi))
    return s, out, n, long
def rand(rng):
    s, out, n, long = scene(rng)
    R = lambda k, m: " ".join(str(rng.randrange(-m, m + 1)) for _ in range(k))
    for k in range(1, 3):
        r = -1 if long or rng.random() < .7 else rng.randrange(-1, n); t = n - 1 if rng.random() < .8 else rng.randrange(n)
        if r == t: r = -1
        out.append("chain 1 %d %d" % (r, t))
        for _ in range(5):
            x = rng.random(); mode = rng.choice(["dz", "dz", "dls", "pinv"]); kd = rng.choice([1, 2, 4]); inc = rng.choice([1, 1, 2, 3])
            cfg = s.cfgstr(0 if long else 1)
            if x < .1: out.append("wkpos %d %d %d %d %s %s %s" % (rng.randrange(4), inc, rng.randrange(-2, 5), rng.randrange(-2, 5), qv(rng), qv(rng), R(6, 3)))
            elif x < .2: out.append("wkcenter 1 %d %d %d %s" % (k, rng.choice([1, 2, 3]), inc, R(20, 8)))
            elif x < .4: out.append("wkls 1 %d %s %d %d %s %s" % (k, mode, kd, inc, R(60, 4), cfg))
            elif x < .55: out.append("wknp 1 %d %s %d %d %s %s" % (k, mode, kd, inc, R(60, 4), cfg))
            elif x < .7: out.append("wksym 1 %d %s %d %d %s %s" % (k, mode, kd, inc, R(60, 4), cfg))
            else: out.append("wklc3 1 %d %s %d %d %d %d %s %s %s %s %s %s" % (k, mode, kd, inc, rng.choice([0, 0, 0, 1, 2]), rng.choice([1, 2, 5, 10]), R(6, rng.choice([1, 4])), R(8, rng.choice([1, 6])), R(8, rng.choice([0, 1, 3])), R(8, rng.choice([0, 2])), R(60 - 32, 1), cfg))
    return out
def run(c):
    exe = vbuild.build_driver("wk.c")
    c.conform("WK", exe, [rand(c.rng) for _ in range(c.pick(900, 9000))], "wk")
