import vbuild
from collgen import *
def rand(rng, shapes=None):
    s, out = scene(rng, rng.choice([2, 3, 4, 5]), R=rng.choice([1, 2, 3]), shapes=shapes)
    out += ["init", "clnew", "setnew"]
    if rng.random() < .3: out.append("clallow 1 %s %s 1" % s.pair())
    for _ in range(4): out += ["check %d %d %s" % (rng.randrange(3), rng.randrange(2), s.cfg()), "setclear 1"]
    for _ in range(3): out.append("dist " + s.cfg())
    return out
def run(c):
    exe = vbuild.build_driver("coll.c", parts=("core", "collision"))
    c.conform("Collision", exe, [rand(c.rng) for _ in range(c.pick(1200, 12000))], "collision-geometry")
    S = ["box", "sphere", "cylinder", "mesh"]
    c.conform("Collision", exe, [rand(c.rng, [a, b]) for a in S for b in S for _ in range(c.pick(40, 400))], "collision-pairs")
