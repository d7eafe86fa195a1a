import vbuild
from scenegen import *
QA = ["0 0 0 1", "0 0 1 1", "1 0 0 1", "0 1 0 1", "1 1 1 1", "0 0 1 0", "1 0 0 2", "0 0 -1 3"]
def tgt(rng):
    return "%s %d %d %d %d" % (rng.choice(QA), rng.randrange(-6, 7), rng.randrange(-6, 7), rng.randrange(-6, 7), rng.choice([1, 1, 2]))
def scene(rng, deep=False):
    s = Scene(rng, 1, 1); n = rng.choice([2, 3, 4, 5, 6]); names, out, dep = [], [], {"": 0}
    for i in range(n):
        nm = "f%d" % i; cand = [x for x in [""] + names if dep[x] < 4]
        par = names[-1] if names and dep[names[-1]] < 5 and rng.random() < .7 else rng.choice(cand)
        names.append(nm); dep[nm] = dep[par] + 1
        out.append(s.add(nm, par, rng.choice(["revolute", "revolute", "prismatic", "fixed"]), "-"))
    rng.shuffle(out); out = ["create"] + out + ["init 1"]
    if rng.random() < .6:
        for c in names:
            if s.fr[c][1] != "fixed" and rng.random() < .8:
                lo, hi = rng.choice([(-4, 4), (-4, 4), (-1, 1), (-2, 3), (0, 4), (-3, -1)]); out.append("limit 1 %s pos %d %d" % (c, lo, hi))
    return s, out, n
def rand(rng):
    s, out, n = scene(rng)
    for k in range(1, 3):
        r, t = rng.randrange(-1, n), rng.randrange(0, n)
        if r == t or rng.random() < .5: r = -1
        if rng.random() < .5: t = n - 1
        out.append("chain 1 %d %d" % (r, t))
        a, b = rng.choice([(1, 4), (1, 2), (3, 4), (4, 5), (99, 100), (9999, 10000)]); tn, td = rng.choice([(1, 1), (5, 1), (3, 2), (1, 100), (12, 1), (7, 2)])
        out.append("ikcx 1 %d %s %d %d %d %d %d" % (k, rng.choice(["sqp", "sqp", "jpinv"]), rng.choice([-1, t]), a, b, tn, td))
        tc = None
        for _ in range(7):
            x = rng.random()
            if x < .15: out.append("ikstart 1 " + s.cfgstr(1))
            elif x < .3: out.append(rng.choice(["ikcenter 1", "ikrand 1"]))
            elif x < .55: out.append("ikcheck 1 %d %s %s" % (rng.randrange(2), tgt(rng), s.cfgstr(0)))
            elif x < .8:
                q = s.cfgstr(0)
                if rng.random() < .6: out.append("ikseed 1 " + q)
                out.append("iksolve 1 %s %d %d %d %s" % (rng.choice(["solve", "solve", "jac", "fun"]), t, rng.choice([0, 0, 0, 3]), rng.randrange(2), q))
            elif x < .9: out.append("ikobj 1 %d %s %s" % (t, tgt(rng), s.cfgstr(0)))
            elif x < .95: out.append("ikbad 1 %s" % rng.choice(["rows", "cols", "len"]))
            else:
                f = rng.randrange(n); out += ["ikframe 1 %d %d" % (rng.randrange(2), f), "ikcheck 1 0 %s %s" % (tgt(rng), s.cfgstr(0)), "ikframe 1 0 %d" % t]
    return out
def run(c):
    exe = vbuild.build_driver("ik.c")
    c.conform("IK", exe, [["create", "add 1 p - prismatic - 0 0 0 1 0 0 0 1 1 0 0 1 0 1 0", "init 1", "chain 1 -1 0", "ikcx 1 1 jpinv -1 1 4 1 1", "ikrestart 1"]], "ik-restart")
    c.conform("IK", exe, [rand(c.rng) for _ in range(c.pick(700, 7000))], "ik")
