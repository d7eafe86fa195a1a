import vbuild
def to_script(hist, init):
    # one model half-unit = 8 bytes; sizes jittered by the caller
    return ["init %d" % init] + ["%s %d" % (o, a) for o, a in hist]
def scale(hist, rng, unit=8):
    out = []
    for o, a in hist:
        if o == "alloc":
            n = a * unit - rng.choice([0, 0, 0, 1, 7]) if a else 0
            o = rng.choice(["alloc", "alloc", "zalloc", "dup", "strdup", "printf"])
            if n < 1 and o in ("strdup", "printf"): o = "alloc"
            out.append((o, max(0, n)))
        elif o == "tmpalloc":
            out.append((rng.choice(["tmpalloc", "tmprealloc"]), a * unit))
        else: out.append((o, a))
    return out
def rand_script(rng, n):
    init = rng.choice([1, 16, 64, 100, 256, 1000])
    s, nb, marks = ["init %d" % init], 0, []
    big = rng.choice([40, 200, 2000])
    for _ in range(n):
        r = rng.random()
        if r < .5:
            sz = rng.choice([0, 1, 15, 16, 17, 31, 32, 48, init, init + 1, init + 16, rng.randrange(big), rng.randrange(big)])
            k = rng.choice(["alloc", "alloc", "zalloc", "dup", "strdup", "printf"])
            if sz < 1 and k in ("strdup", "printf"): sz = 1
            s.append("%s %d" % (k, sz)); nb += 1
        elif r < .62: s.append("%s %d" % (rng.choice(["tmpalloc", "tmprealloc", "tmprealloc"]), rng.randrange(big * 2)))
        elif r < .74 and len(marks) < 40: s.append("mark"); marks.append(nb)
        elif r < .86 and nb:
            k = max(1, nb - int(rng.expovariate(.5))); s.append("pop %d" % k); nb = k - 1
            while marks and marks[-1] > nb: marks.pop()
        elif r < .97 and marks:
            k = max(1, len(marks) - int(rng.expovariate(1))); s.append("popmark %d" % k); nb = marks[k - 1]; marks = marks[:k - 1]
        elif r > .99: s.append("release"); nb, marks = 0, []
    return s
def run(c):
    exe = vbuild.build_driver("region.c")
    c.model_check("RegionMC", "RegionMC.cfg" if not c.thorough else "RegionMCT.cfg")
    b = c.generate("RegionMC", "RegionGen.cfg")
    sc = [to_script(scale(h, c.rng), 48) for h in b]   # 48+16 bytes = 8 half units
    sim = c.generate("RegionMC", "RegionSim.cfg", simulate=(c.pick(600, 6000), 15))
    sc += [to_script(scale(h, c.rng), 48) for h in sim]
    c.conform("Region", exe, sc, "region-gen")
    c.conform("Region", exe, [rand_script(c.rng, c.pick(60, 120)) for _ in range(c.pick(300, 3000))], "region-rand")
    # without AddressSanitizer's quarantine freed chunk addresses are reused at once
    plain = vbuild.build_driver("region.c", variant="plain")
    c.conform("Region", plain, [rand_script(c.rng, c.pick(80, 150)) for _ in range(c.pick(300, 3000))] + sc[-600:], "region-plain")
