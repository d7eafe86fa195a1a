import vbuild
from collgen import *
def rand(rng):
    s, out = scene(rng, rng.choice([2, 3, 4, 5, 6]), R=2)
    out.append("init")
    if rng.random() < .3: out.append("sgallow 1 %s %s 1" % s.pair())
    nset = 0; cl = False
    for _ in range(rng.choice([6, 12, 20])):
        r = rng.random(); a, b = s.pair(); byname = rng.randrange(2)
        if r < .1: out.append("sgallow %d %s %s %d" % (byname, a, b, rng.choice([1, 1, 0])))
        elif r < .14: out.append("allowconfig " + s.cfg())
        elif r < .22: out.append("sgset")
        elif r < .30: out.append("getcoll " + s.cfg())
        elif r < .38: out.append("clnew"); cl = True
        elif r < .48 and cl: out.append("clallow %d %s %s %d" % (byname, a, b, rng.choice([1, 1, 0])))
        elif r < .54 and nset < 5: out.append("setnew"); nset += 1
        elif r < .64 and nset: out.append("setset %d %s %s %d" % (rng.randint(1, nset), a, rng.choice([a, b, b, b]), rng.choice([1, 1, 0])))
        elif r < .68 and nset: out.append("%s %d %d" % (rng.choice(["setfill", "setmerge"]), rng.randint(1, nset), rng.randint(1, nset)))
        elif r < .70 and nset: out.append("setclear %d" % rng.randint(1, nset))
        elif r < .74 and nset and cl: out.append("clallowset %d" % rng.randint(1, nset))
        elif r < .90 and cl: out.append("check %d %d %s" % (rng.randrange(3), rng.randint(0, nset), s.cfg()))
        elif r < .93: out.append("copy %d" % rng.randrange(2)); nset = 0; cl = False
        elif r < .97 and len(s.fr) > 2:
            leaves = [n for n in sorted(s.fr) if not any(p == n for t, p in s.fr.values())]
            n = rng.choice(leaves); del s.fr[n]; out += ["rm " + n]
            if rng.random() < .6: out += [s.frame(n if rng.random() < .7 else "g1", "", R=2), s.geom([n if n in s.fr else "g1"])]
            out += ["init"]; nset = 0; cl = False
        else: out += ["sgset"]
    return out
def script(h, rng):
    """Behaviour of CollSetMC on three overlapping frames -> driver commands, sets and checks observed after every step."""
    fr = lambda n: ["frame %s - fixed 0 0 0 1 %d 0 0 2 1 0 0" % (n, "abcd".index(n)), "geom box 4 4 4 2 1 0 " + n]
    s = sum([fr(n) for n in rng.sample("abc", 3)], []) + ["init"]; cl = False
    for op, a, b, v in h:
        if rng.randrange(2): a, b = (b, a) if b else (a, b)
        if op == "sgallow": s += ["sgallow %d %s %s %d" % (rng.randrange(2), a, b, v), "sgset"]
        elif op == "clnew": s += ["clnew", "check 2 0"] + ([] if cl else ["setnew", "check 2 1"]); cl = True
        elif op == "clallow": s += ["clallow %d %s %s %d" % (rng.randrange(2), a, b, v), "setclear 1", "check 2 1"]
        elif op == "rm": s += ["rm " + a, "init", "sgset"]; cl = False
        elif op == "add": s += fr(a) + ["init", "sgset"]; cl = False
        # sets live until the next init; a second clnew adds a set but the first one is the one observed
        if cl: s += ["check 0 0", "setclear 1", "check 1 1"]
    s += ["sgset", "copy %d" % rng.randrange(2), "sgset", "clnew", "setnew", "check 0 1", "getcoll"]
    return s
def run(c):
    exe = vbuild.build_driver("coll.c", parts=("core", "collision"))
    c.model_check("CollSetMC", "CollSetMC.cfg")
    g = c.generate("CollSetMC", "CollSetGen.cfg")
    if not c.thorough: g = c.rng.sample(g, min(700, len(g)))
    sim = c.generate("CollSetMC", "CollSetSim.cfg", simulate=(c.pick(400, 4000), 12))
    sim = c.rng.sample(sim, min(c.pick(500, 8000), len(sim)))
    c.conform("Collision", exe, [script(h, c.rng) for h in g + sim], "collision-generated")
    c.conform("Collision", exe, [rand(c.rng) for _ in range(c.pick(1000, 15000))], "collision-sets")
