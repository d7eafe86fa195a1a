import vbuild
from scenegen import *
API = ["jacobian", "get", "velget", "velfill", "velfill2", "twistget", "twistfill", "twistfill2"]
def rand(rng):
    s, out = tree(rng, 1, rng.choice([2, 4, 6, 8]), budget=1, maxdepth=4); out = ["create"] + out + ["init 1"]; n = len(s.fr); k = 0
    for _ in range(3):
        r, t = rng.randrange(-1, n), rng.randrange(0, n)
        if r == t: r = -1
        out.append("chain 1 %d %d" % (r, t)); k += 1
        for a in rng.sample(API, 4): out.append("jac 1 %d %s %d %s" % (k, a, rng.choice([0, 0, 2]), s.cfgstr(1)))
    return out
def run(c):
    exe = vbuild.build_driver("scene.c")
    c.model_check("SceneMC", "SceneMC.cfg")
    c.conform("Scene", exe, [rand(c.rng) for _ in range(c.pick(900, 9000))], "scene-jac")
