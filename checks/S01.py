import vbuild
from scenegen import *
def script(h, rng):
    s = Scene(rng, 1); out = ["create"]
    for op, n, p in h:
        if op == "add": out.append(s.add(n, p))
        elif op == "rm": out.append(s.rm(n))
        elif op == "reparent": out.append(s.reparent(n, p))
        else: out.append("init 1")
    if out[-1] != "init 1": out.append("init 1")
    return out
def rand(rng, n):
    s = Scene(rng, 1); out = ["create"] + (["init 1"] if rng.random() < .3 else [])
    pool = ["n%d" % i for i in range(rng.choice([3, 5, 9]))] + ["", "zz"]
    for _ in range(n):
        r = rng.random(); names = list(s.fr)
        if r < .5: 
            nm = rng.choice(pool[:-2]); par = rng.choice(pool) if rng.random() < .35 else rng.choice([""] + names)
            if nm == par and rng.random() < .7: par = ""
            out.append(s.add(nm, par))
        elif r < .6 and names: out.append(s.rm(rng.choice(names)))
        elif r < .75 and names: out.append(s.reparent(rng.choice(names), rng.choice([""] + names)))
        else: out.append("init 1")
    out.append("init 1"); out.append("init 1")
    return out
def run(c):
    exe = vbuild.build_driver("scene.c")
    c.model_check("SceneMC", c.pick("SceneMC.cfg", "SceneMCT.cfg"))
    gen = c.generate("SceneMC", "SceneGen.cfg")
    if not c.thorough: gen = c.rng.sample(gen, min(len(gen), 9000))
    sc = [script(h, c.rng) for h in gen]
    sim = c.generate("SceneMC", "SceneSim.cfg", simulate=(c.pick(800, 8000), 15))
    if not c.thorough: sim = c.rng.sample(sim, min(len(sim), 4000))
    sc += [script(h, c.rng) for h in sim]
    c.conform("Scene", exe, sc, "scene-gen")
    c.conform("Scene", exe, [rand(c.rng, 40) for _ in range(c.pick(400, 4000))], "scene-rand")
