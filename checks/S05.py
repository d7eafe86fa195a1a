import vbuild
from scenegen import *
def rand(rng):
    s, out = tree(rng, 1, rng.choice([2, 4, 6, 8]), maxdepth=4); out = ["create"] + out + ["init 1"]; n = len(s.fr); k = 0
    if rng.random() < .3:
        for cfg in sorted({f[0] for f in s.fr.values() if f[1] != "fixed"}): out.append("limit 1 %s pos %d %d" % (cfg, -rng.randrange(5), rng.randrange(5)))
    for _ in range(4):
        if rng.random() < .7: out.append("chain 1 %d %d" % (rng.randrange(-1, n), rng.randrange(0, n)))
        else: out.append("mchain 1 %d %s" % (rng.randrange(-1, n), " ".join(str(rng.randrange(n)) for _ in range(rng.choice([2, 3])))))
        k += 1
        for _ in range(2): out.append("subcfg 1 %d %s %d" % (k, rng.choice(["gather", "scatter", "get", "set", "path", "center"]), rng.randrange(1, 40)))
        for _ in range(2): out.append("subfk 1 %d %s %s" % (k, s.cfgstr(), s.cfgstr(0)))
    return out
def run(c):
    exe = vbuild.build_driver("scene.c")
    c.model_check("SceneMC", "SceneMC.cfg")
    c.conform("Scene", exe, [rand(c.rng) for _ in range(c.pick(600, 8000))], "scene-sub")
