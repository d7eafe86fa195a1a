import vbuild
from scenegen import *
def rand(rng):
    s, out = tree(rng, 1, rng.choice([2, 3, 4, 5, 6, 8]), maxdepth=rng.choice([2, 3, 4]))
    out = ["create"] + out + ["init 1"]
    for _ in range(rng.choice([1, 2])):
        out += fks(s, 3)
        n = len(s.fr)
        for _ in range(3): out.append("fkrel 1 %s %d %d %s" % (rng.choice(["reltf", "fk"]), rng.randrange(-1, n), rng.randrange(-1, n), s.cfgstr()))
        # edit the scene and look again
        nm = rng.choice(sorted(s.fr)); r = rng.random()
        desc = {nm}; ch = True
        while ch:
            ch = False
            for k, f in s.fr.items():
                if f[3] in desc and k not in desc: desc.add(k); ch = True
        if r < .6: out.append(s.reparent(nm, rng.choice([""] + [k for k in sorted(s.fr) if k not in desc and s.depth() < 5]), rng.randrange(2)))
        elif r < .8 and len(desc) == 1 and len(s.fr) > 1: out.append(s.rm(nm))
        else: out.append(s.add(nm, s.fr[nm][3]))
        if s.depth() > 5: break
        out += ["init 1"]
        out += fks(s, 2)
    return out
def run(c):
    exe = vbuild.build_driver("scene.c")
    c.model_check("SceneMC", "SceneMC.cfg")
    c.conform("Scene", exe, [rand(c.rng) for _ in range(c.pick(900, 9000))], "scene-fk")
    # every pair of joint types in every representation
    sc = []
    for t1 in ("fixed", "revolute", "prismatic"):
        for t2 in ("fixed", "revolute", "prismatic"):
            for api in FKAPI:
                for pad in (0, 1, 2):
                    s = Scene(c.rng, 1); o = ["create", s.add("b", "", t1), s.add("a", "b", t2), s.add("c", "a", t1), "init 1"]
                    o += ["fk 1 %s %d %s" % (api, pad, s.cfgstr(0)) for _ in range(3)]; sc.append(o)
    c.conform("Scene", exe, sc, "scene-fk-types")
