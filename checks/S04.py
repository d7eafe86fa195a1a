import copy as cp, vbuild
from scenegen import *
from S03 import KINDS
def edit(rng, s, h):
    s.h = h; names = sorted(s.fr); r = rng.random()
    if not names or r < .3:
        nm = "x%d" % rng.randrange(3) if rng.random() < .6 or not names else rng.choice(names)
        return [s.add(nm, s.fr[nm][3] if nm in s.fr else rng.choice([""] + names))]
    cfgs = sorted({f[0] for f in s.fr.values() if f[1] != "fixed"} | {"q1"})
    if r < .5: return ["limit %d %s %s %d %d" % (h, rng.choice(cfgs), rng.choice(KINDS), -rng.randrange(9), rng.randrange(9))]
    if r < .65: return ["inertial %d %s %d %d" % (h, rng.choice(names), rng.randrange(1, 50), rng.randrange(30))]
    leaves = [n for n in names if not any(f[3] == n for f in s.fr.values())]
    if r < .8: return [s.rm(rng.choice(leaves))]
    nm = rng.choice(leaves); return [s.reparent(nm, rng.choice([""] + [x for x in names if x != nm]))]
def observe(rng, s, h):
    s.h = h; return ["init %d" % h] + (fks(s, 1) if s.depth() < 6 else []) + ["getlims %d" % h, "getmass %d" % h]
def rand(rng):
    s, out = tree(rng, 1, rng.choice([1, 2, 4, 5])); out = ["create"] + out; sc = {1: s}; n = 1
    for _ in range(rng.choice([0, 2, 4])): out += edit(rng, s, 1)
    for _ in range(rng.choice([3, 6, 9])):
        alive = sorted(sc); r = rng.random()
        if r < .35 and n < 6 and alive:
            h = rng.choice(alive); out += ["init %d" % h, "copy %d" % h]; n += 1; sc[n] = cp.copy(sc[h]); sc[n].fr = dict(sc[h].fr); sc[n].h = n
        elif r < .5 and len(alive) > 1:
            h = rng.choice(alive); out.append("destroy %d" % h); del sc[h]
        elif alive:
            for _ in range(2): h = rng.choice(alive); out += edit(rng, sc[h], h)
        if rng.random() < .5:
            for h in sorted(sc): out += observe(rng, sc[h], h)
    for h in sorted(sc): out += observe(rng, sc[h], h)
    return out
def run(c):
    exe = vbuild.build_driver("scene.c")
    c.model_check("SceneMC", "SceneMC.cfg")
    c.conform("Scene", exe, [rand(c.rng) for _ in range(c.pick(500, 6000))], "scene-copy")
