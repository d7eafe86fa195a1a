import vbuild
from L02 import S, ints
def pts(rng, n, m, R=4):
    out = []
    while len(out) < m:
        p = [rng.randint(-R, R) for _ in range(n)]
        if rng.random() < .3 and out: p = [x if rng.random() < .5 else y for x, y in zip(out[-1], p)]
        if out and p == out[-1] and rng.random() < .7: continue
        out.append(p)
    return out
def lims(rng, n, sym): 
    f = lambda: [rng.choice([1, 2, 3, 4]) for _ in range(n)]
    v0, v1, a0, a1 = f(), f(), f(), f()
    if rng.random() < .4: a0, a1 = [a * 4 for a in a0], [a * 4 for a in a1]
    if sym: a0 = a1
    return S("lim", [-x for x in v0], v1, [-x for x in a0], a1)
def deque(rng):
    n = rng.randint(1, 3); s = [S("list", n)]; last = None
    for _ in range(rng.randint(1, 7)):
        p = ints(rng, n, 1); how = rng.randrange(8); s.append(S("add", how, p, ints(rng, n, 1) if how & 2 else ""))
    return s + ["dump"]
def joint(rng, kind):
    n = rng.randint(1, 3); P = pts(rng, n, rng.randint(2, 5))
    if all(p == P[0] for p in P): P.append([x + 1 for x in P[0]])
    if rng.random() < .3: s = [S("path", n, len(P), *P)]
    else:
        s = [S("list", n)]; front = rng.random() < .3
        if front: k = rng.randrange(1, len(P)); s += [S("add", rng.choice([0, 4]), p) for p in P[k:]] + [S("add", 1, p) for p in P[k-1::-1]]
        elif kind < 2 and rng.random() < .25:    # points that differ only in their velocity: a segment without motion
            k = rng.randrange(len(P))
            for i, p in enumerate(P): s += [S("add", rng.choice([0, 4]), p)] + ([S("add", 2, p, ints(rng, n, 1))] if i == k else [])
        else: s += [S("add", rng.choice([0, 4]), p) for p in P]
    s += ["dump", lims(rng, n, kind == 1), S("gen", kind, rng.randrange(2))]
    ts = [rng.randint(0, 64) for _ in range(7)] + [0, 64, -1, 65]; rng.shuffle(ts); s += ["ev %d" % t for t in ts]; s.append("fine %d" % rng.choice([97, 300]))
    s += [S("check", rng.choice([5, 12, 7, 24]), rng.choice([0, 0, 1, 3, 9]), rng.choice([1, -3, 42])), S("c0", rng.choice([1, 2]), rng.choice([0, 5000, 5000, 20])), "ev %d" % rng.randint(0, 64), S("c0", 1, 5000)]
    return s
def pose(rng): return S("addX", rng.randrange(3), 15 * rng.randint(-11, 11), rng.randrange(3), 15 * rng.randint(-11, 11), ints(rng, 3, 4), rng.choice([0, 0, 1]))
def slerp(rng):
    m = rng.choice([2, 2, 2, 2, 2, 2, 1, 3]); s = [S("list", 0)]; P = []
    for _ in range(m): P.append(pose(rng))
    if m == 2 and rng.random() < .15:       # nearly half a turn, or a tiny rotation
        ax, an = rng.randrange(3), rng.randint(-170, 170); P = [S("addX", ax, an, 0, 0, ints(rng, 3, 4), 0), S("addX", ax, an + rng.choice([1, 179, -179, -1]), 0, 0, ints(rng, 3, 4), rng.randrange(2))]
    s += P + ["gen 3 %d" % rng.randrange(2)]
    if m == 2: ts = [rng.randint(0, 64) for _ in range(5)] + [0, 64, -1, 65, 1]; rng.shuffle(ts); s += ["evX %d" % t for t in ts]
    return s
def half(rng, s):   # the shortest path between these poses is ambiguous
    return False
def xpb(rng):
    s = [S("list", 0)]; m = rng.randint(2, 4); s += [pose(rng) for _ in range(m)]; f = lambda: [rng.choice([1, 2, 3, 4]) for _ in range(6)]
    v0, v1, a0, a1 = f(), f(), f(), f(); s += [S("lim", [-x for x in v0], v1, [-x for x in a0], a1), "gen 4 %d" % rng.randrange(2), "evX 0", "evX 64", "evX 17", "evX -1", "evX 65", "evX 3", "fineX 200"]
    return s
def misc(rng):
    n = rng.randint(1, 4); s = []
    for _ in range(2): s.append(S("lims", rng.randrange(2), n, *[[rng.randrange(16)] + sum([[-rng.randint(1, 9), rng.randint(1, 9)] for _ in range(4)], []) for _ in range(n)]))
    s.append(S("state", rng.randint(0, 4), rng.randint(0, 4), rng.choice([0, 0, rng.randrange(16)])))
    for _ in range(4): m = rng.randrange(64); s.append(S("eq", rng.randint(1, 4), m, m if rng.random() < .7 else rng.randrange(64), rng.randrange(6), rng.randrange(8), rng.choice([0, 1, -2, 8, -8, 4000])))
    return s
def run(c):
    exe = vbuild.build_driver("traj.c")
    n = c.pick(300, 4000); r = c.rng
    c.model_check("TrajMC", "TrajMC.cfg")
    g = c.generate("TrajMC", "TrajGen.cfg")
    def hist(h): return ["list 1"] + ["add 0 %d" % x for x in (0, 2, -1, 0, 3)] + ["lim -3 2 -4 4", "gen %d 1" % r.choice([0, 0, 1])] + ["ev %d" % (-1 if t < 0 else 8 * t) for t in h]
    c.conform("Traj", exe, [hist(h) for h in g], "traj-orders", timeout=60)
    c.conform("Traj", exe, [deque(r) for _ in range(2 * n)] + [misc(r) for _ in range(n)], "traj-points", timeout=60)
    c.conform("Traj", exe, [joint(r, k) for k in range(3) for _ in range(n)], "traj-joint", timeout=60)
    c.conform("Traj", exe, [slerp(r) for _ in range(n)] + [xpb(r) for _ in range(n)], "traj-pose", timeout=60)
