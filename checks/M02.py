import vbuild
def script(h, rng):
    """Behaviour of ContainersMC -> driver commands; pool slots are addressed by position among the live ones."""
    s = ["pinit %d %d" % (rng.choice([1, 8, 15, 16, 17, 24, 40, 100]), rng.choice([0, 1, 2, 3, 16])), "lnew %d" % rng.choice([1, 64, 1000])]
    live, free, bump = [], [], 0
    for o, a in h:
        if o in ("push", "enq"): s.append("lput 1 %s %s %d" % (o, rng.choice(["cpy", "ptr"]), a))
        elif o == "lpop": s.append("lpop 1")
        elif o == "palloc":
            x = free.pop() if free else None
            if x is None: bump += 1; x = bump
            live.append(x); s.append("palloc")
        elif o == "pfree":
            k = live.index(a) + 1; live.remove(a); free.append(a); s.append("pfree %d" % k)
        elif o == "prelease": live, free, bump = [], [], 0; s.append("prelease")
    return s
def rand(rng, n):
    s = ["pinit %d %d" % (rng.randrange(1, 120), rng.randrange(0, 20))]
    nl = rng.randrange(1, 4)
    for i in range(nl): s.append("lnew %d" % rng.choice([1, 50, 500]))
    live = v = 0
    for _ in range(n):
        r = rng.random()
        if r < .3: s.append("palloc"); live += 1
        elif r < .45 and live: s.append("pfree %d" % rng.randrange(1, live + 1)); live -= 1
        elif r < .47: s.append("prelease"); live = 0
        elif r < .8: v += 1; s.append("lput %d %s %s %d" % (rng.randrange(1, nl + 1), rng.choice(["push", "enq"]), rng.choice(["cpy", "ptr"]), v))
        else: s.append("lpop %d" % rng.randrange(1, nl + 1))
    return s
def bits(rng, n):
    nb = rng.choice([1, 7, 31, 32, 33, 63, 64, 65, 96, 100])
    s = ["binit %d" % nb]
    for _ in range(n):
        r = rng.random()
        if r < .7: s.append("bset %d %d %d" % (rng.choice([1, 2, 2]), rng.randrange(nb), rng.choice([0, 1, 1])))
        elif r < .8: s.append("bgetn %d %d" % (rng.choice([1, 2]), rng.choice([rng.randrange(nb), nb, nb + 40, 200])))
        else: s.append(rng.choice(["band", "bor", "bxor"]))
    return s
def sorts(rng, n):
    import itertools
    out = []
    for _ in range(n):
        k = rng.choice([0, 1, 2, 3, 4, 5, 7, 8, 9, 15, 16, 17, 31, rng.randrange(60)])
        keys = rng.choice([lambda: rng.randrange(-3, 4), lambda: rng.randrange(-100, 100), lambda: 5])
        v = [keys() for _ in range(k)]
        if rng.random() < .2: v.sort()
        if rng.random() < .2: v.sort(reverse=True)
        out.append("sort %d %s" % (rng.choice([1, 2, 3, 4, 7, 8, 9, 12, 16, 24, 33]), " ".join(map(str, v))))
    return out
def allsorts():
    import itertools
    res = []
    for k in range(0, 6):
        res += ["sort 9 " + " ".join(map(str, p)) for p in itertools.product(range(-1, 3), repeat=k)] if k < 5 else \
               ["sort 8 " + " ".join(map(str, p)) for p in itertools.permutations(range(k))]
    return res
def run(c):
    exe = vbuild.build_driver("containers.c")
    c.model_check("ContainersMC", "ContainersMC.cfg")
    sc = [script(h, c.rng) for h in c.generate("ContainersMC", "ContainersGen.cfg")]
    sc += [script(h, c.rng) for h in c.generate("ContainersMC", "ContainersSim.cfg", simulate=(c.pick(400, 4000), 25))]
    c.conform("Containers", exe, sc, "containers-gen")
    k = c.pick(1, 8)
    sc = [rand(c.rng, 80) for _ in range(100 * k)] + [bits(c.rng, 40) for _ in range(60 * k)] + [sorts(c.rng, 20) for _ in range(20 * k)]
    a = allsorts()
    sc += [a[i:i + 20] for i in range(0, len(a), 20)]
    c.conform("Containers", exe, sc, "containers-rand")
