"""Generators of collision scenes (C01, C02)."""
Q24 = [(0,0,0,1)] * 4 + [(1,0,0,1), (0,1,0,1), (0,0,1,1), (-1,0,0,1), (0,-1,0,1), (0,0,-1,1), (1,0,0,0), (0,1,0,0), (0,0,1,0), (1,1,1,1), (1,-1,1,1), (1,1,0,0), (0,1,-1,0)]
AX = [(1,0,0), (0,1,0), (0,0,1), (-1,0,0), (0,-1,0), (0,0,-1)]
REV = [(0,1), (1,1), (-1,1), (1,0)]
class CS:
    def __init__(s, rng): s.rng, s.fr, s.ids, s.nset, s.cl = rng, {}, [], 0, False
    def frame(s, n, p, t=None, R=3):
        r = s.rng; t = t or r.choice(["fixed", "fixed", "revolute", "prismatic"]); s.fr[n] = (t, p)
        return "frame %s %s %s %d %d %d %d %d %d %d %d %d %d %d" % (n, p or "-", t, *r.choice(Q24), *[r.randrange(-R, R+1) for _ in range(3)], r.choice([1, 1, 2]), *r.choice(AX))
    def geom(s, frames, shape=None, coll=None):
        r = s.rng; sh = shape or r.choice(["box", "box", "sphere", "cylinder", "mesh"])
        d = [r.randrange(1, 5) for _ in range(3)]
        return "geom %s %d %d %d %d %d %d %s" % (sh, *d, r.choice([2, 2, 1, 3, 4]), (0 if r.random() < .1 else 1) if coll is None else coll, r.randrange(2), " ".join(frames))
    def cfg(s):
        out = []
        for n, (t, p) in s.fr.items():
            if t == "revolute": out.append("%s %d %d" % (n, *s.rng.choice(REV)))
            elif t == "prismatic": out.append("%s %d %d" % (n, s.rng.randrange(-4, 5), s.rng.choice([1, 1, 2])))
        return " ".join(out)
    def pair(s):
        a, b = s.rng.sample(sorted(s.fr), 2); return a, b
def scene(rng, n, R=3, maxdepth=3, shapes=None):
    s = CS(rng); out = []; dep = {"": 0}; names = []
    pool = ["f%d" % i for i in range(n)]; rng.shuffle(pool)
    for nm in pool:
        p = rng.choice([x for x in [""] + names if dep[x] < maxdepth]); dep[nm] = dep[p] + 1; names.append(nm); out.append(s.frame(nm, p, R=R))
    for nm in names:
        for _ in range(rng.choice([0, 1, 1, 1, 2])): out.append(s.geom([nm], shapes and rng.choice(shapes)))
    if rng.random() < .2 and n > 1: out.append(s.geom(rng.sample(names, 2), shapes and rng.choice(shapes)))
    return s, out
