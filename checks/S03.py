import vbuild
from scenegen import *
KINDS = ["pos", "vel", "acc", "eff"]
def rand(rng):
    s, out = tree(rng, 1, rng.choice([2, 3, 5])); out = ["create"] + out + ["init 1"]; ng = 1
    names = lambda: sorted({f[0] for f in s.fr.values() if f[1] != "fixed"} | {"q0", "q3"})
    def lim(h): lo = rng.randrange(-9, 9); return "limit %d %s %s %d %d" % (h, rng.choice(names()), rng.choice(KINDS), lo, lo + rng.randrange(0, 7))
    def inr(h): return "inertial %d %s %d %d" % (h, rng.choice(sorted(s.fr)), rng.randrange(1, 50), rng.randrange(-5, 50))
    out2 = []
    for _ in range(rng.choice([4, 8, 16])):
        r = rng.random()
        if r < .45: out.append(lim(1))
        elif r < .7: out.append(inr(1))
        elif r < .8 and len(s.fr) > 1:
            nm = rng.choice(sorted(s.fr)); out += [s.add(nm, s.fr[nm][3]), "init 1"]
        elif r < .9: out += ["init 1"]
        else: out += ["getlims 1", "getmass 1"]
    out += ["init 1", "getlims 1", "getmass 1"]
    n = len(s.fr)
    k = 0
    for i in range(2):
        out.append("chain 1 %d %d" % (rng.randrange(-1, n), rng.randrange(0, n))); k += 1
        out += ["subcfg 1 %d center 1" % k, "randcfg 1 %d" % k]
    return out
def run(c):
    exe = vbuild.build_driver("scene.c")
    c.model_check("SceneMC", "SceneMC.cfg")
    c.conform("Scene", exe, [rand(c.rng) for _ in range(c.pick(700, 8000))], "scene-limits")
