import json, vbuild
S = lambda t: t.replace("\\", "\\\\").replace(" ", "\\s").replace("\t", "\\t").replace("\n", "\\n") or "\\0"
def num(rng, small=False):
    """-> text, meaning [neg, int, frac, digits, exp]"""
    neg = rng.random() < .3; ip = rng.choice([0, 0, 1, 2, 7, 10, 99, rng.randrange(1000)]); fl = rng.choice([0, 0, 1, 2, 3, 6]); fp = rng.randrange(10**fl) if rng.random() < .8 else rng.choice([0, 10**fl - 1, min(7, 10**fl - 1)])
    ex = 0; t = ("-" if neg else "") + str(ip)
    if rng.random() < .1: t = ("-" if neg else "") + "00" + str(ip)
    if fl or rng.random() < .1:
        t += "." + (("%0*d" % (fl, fp)) if fl else "")
        if fl == 6 and rng.random() < .3: t += "".join(rng.choice("0123456789") for _ in range(rng.choice([1, 5, 12, 13, 20, 40])))
        elif fl and rng.random() < .1: t += "0" * rng.choice([1, 10, 20, 30])
    if rng.random() < .15:
        ex = rng.choice([-1, -2, -3, -6, 0, 1, 2]) if ip < 10 and fl < 6 else rng.choice([-1, -2, -5, 0])
        t += "e" + rng.choice(["", "0" if rng.random() < .3 else ""]) + str(ex) if ex >= 0 else "e-" + rng.choice(["", "0"]) + str(-ex)
    return t, [int(neg), ip, fp, fl, ex]
def sp(rng): return rng.choice([" "] * 8 + ["  ", "\t", " \t "])
def lay(rng, words):
    t = rng.choice([""] * 6 + [" ", "\t", "   "]) + words[0]
    for w in words[1:]: t += sp(rng) + w
    t += rng.choice([""] * 6 + [" ", "\t "])
    if rng.random() < .1: t += rng.choice(["#", " # a comment", "# v 1 2 3", "\t#f 1//1 # x"])
    return t
NAMES = ["a", "b", "Mat.001", "x/y", "#7", "v", "usemtl", "none", "a#b"]
def o_stmt(rng, libs):
    r = rng.random()
    if r < .3 or r > .97:
        k = rng.choice(["v", "v", "vn", "vt"]); xs = [num(rng) for _ in range(2 if k == "vt" else 3)]
        return lay(rng, [k] + [x[0] for x in xs]), {"k": k, "x": [x[1] for x in xs]}
    if r < .6:
        big = rng.choice([3, 9, 100, 70000, 2000000000])
        V, N = [[rng.randrange(1, big + 1) for _ in range(3)] for _ in range(2)]; T = [rng.randrange(1, big + 1) if rng.random() < .6 else 0 for _ in range(3)]
        if rng.random() < .3: T = [0] * 3
        return lay(rng, ["f"] + ["%d/%s/%d" % (V[i], T[i] or "", N[i]) for i in range(3)]), {"k": "f", "v": V, "t": T, "n": N}
    if r < .75:
        n = rng.choice(NAMES[:rng.choice([2, 3, 9])]); return lay_name(rng, "usemtl", n), {"k": "usemtl", "n": n}
    if r < .8: return lay_name(rng, "o", rng.choice(NAMES)), {"k": "o"}
    if r < .83 and libs:
        d, up, n = rng.choice(libs); txt = ("../" if up else "") + ("d/" if d else "") + n
        return lay_name(rng, "mtllib", txt), {"k": "mtllib", "d": d, "up": up, "n": n, "txt": txt}
    return rng.choice(["", " ", "\t", "# comment", "#", "  # v 1", "s off", "s 1", "s 2 # x", "l 1 2 3"]), {"k": "skip"}
def lay_name(rng, k, n):
    return rng.choice(["", "", "", " "]) + k + sp(rng) + n + rng.choice(["", "", "", " ", "\t", " # c", " #"])
def o_bad(rng):
    n = lambda: num(rng)[0]
    return rng.choice([lambda: "v %s %s" % (n(), n()), lambda: "v", lambda: "v ", lambda: "v %s x %s" % (n(), n()), lambda: "v %s %s %sx" % (n(), n(), n()), lambda: "v %s %s\n%s" % (n(), n(), n()), lambda: "vn %s\n %s %s" % (n(), n(), n()),
        lambda: "vt %s" % n(), lambda: "vt", lambda: "vn %s %s" % (n(), n()), lambda: "f 1//1 2//2", lambda: "f 1//1 2//2\n3//3", lambda: "f 1//1\n2//2 3//3", lambda: "f 1//1 2//2 3", lambda: "f 1//1 2//2 3//", lambda: "f a//1 2//2 3//3",
        lambda: "f", lambda: "q 1", lambda: "usemtl", lambda: "usemtl ", lambda: "usemtl\nx", lambda: "usemtl \n x", lambda: "o", lambda: "o\nx", lambda: "mtllib", lambda: "vx 1 2 3", lambda: "v 1 2 - 3", lambda: "1 2 3", lambda: "f 1//1 2//2 3//3 x",
        lambda: "usemtl a b", lambda: "o a b", lambda: "v 1 2 3 # ok\nv 1 2\n3"])()
def m_stmt(rng):
    r = rng.random()
    if r < .25: n = rng.choice(NAMES); return lay_name(rng, "newmtl", n), {"k": "newmtl", "n": n}
    if r < .8:
        p = rng.choice(["Ka", "Kd", "Ks", "Ke", "Ns", "Ni", "d"]); xs = [num(rng) for _ in range(3 if p[0] == "K" else 1)]
        return lay(rng, [p] + [x[0] for x in xs]), {"k": "p", "p": p, "x": [x[1] for x in xs]}
    return rng.choice(["", " ", "# comment", "\t#", "illum 2", "illum 1 # x", "map_Kd tex.png", " map_Kd a b"]), {"k": "skip"}
def m_bad(rng):
    n = lambda: num(rng)[0]; K = rng.choice(["Ka", "Kd", "Ks", "Ke"])
    return rng.choice([lambda: "%s %s %s" % (K, n(), n()), lambda: K, lambda: "%s %s\n%s %s" % (K, n(), n(), n()), lambda: "%s %s %s\n%s" % (K, n(), n(), n()), lambda: "Ns", lambda: "Ns x", lambda: "Ni ", lambda: "d\n1", lambda: "d 1 2", lambda: "newmtl",
        lambda: "newmtl\nx", lambda: "foo 1", lambda: "newmtl a b", lambda: "%s %s %s %s 1" % (K, n(), n(), n()), lambda: "Ns 1\n2"])()
def L(t, m): return "line %s %s" % (S(t), json.dumps(m, separators=(",", ":")))
def mfile(rng, d, n, k, pbad):
    out = ["file %d %s m" % (d, n)]
    if rng.random() < .93: nm = rng.choice(NAMES); out.append(L("newmtl " + nm, {"k": "newmtl", "n": nm}))
    ls = [L(*m_stmt(rng)) for _ in range(k)]
    if rng.random() < pbad: ls.insert(rng.choice([len(ls), rng.randrange(len(ls) + 1)]), L(m_bad(rng), {"k": "bad"}))
    return out + ls + ["done %d" % (rng.random() < .6)]
def ofile(rng, d, n, k, pbad, libs):
    out = ["file %d %s o" % (d, n)]; ls = []
    if libs and rng.random() < .7:
        D, up, ln = rng.choice(libs); txt = ("../" if up else "") + ("d/" if D else "") + ln
        ls.append(L("mtllib " + txt, {"k": "mtllib", "d": D, "up": up, "n": ln, "txt": txt}))
    ls += [L(*o_stmt(rng, libs)) for _ in range(k)]
    if rng.random() < pbad: ls.insert(rng.choice([len(ls), rng.randrange(len(ls) + 1)]), L(o_bad(rng), {"k": "bad"}))
    return out + ls + ["done %d" % (rng.random() < .6)]
def script(rng, k, pbad=.25):
    out = []; ms = []
    for _ in range(rng.randrange(0, 3)):
        d, n = rng.randrange(2), rng.choice(["m.mtl", "n.mtl"]); out += mfile(rng, d, n, rng.randrange(0, max(2, k // 2)), pbad * .7); ms.append((d, n)); out.append("mtl %d %s" % (d, n))
    d = rng.randrange(2); libs = []
    for md, n in ms: libs.append((1, 0, n) if md and not d else (0, 0, n) if md == d else (0, 1, n))
    if rng.random() < .06: libs.append((0, 0, "n.mtl"))
    n = rng.choice(["a.obj", "b.obj"]); out += ofile(rng, d, n, k, pbad, libs) + ["obj %d %s" % (d, n)]
    if ms and rng.random() < .3: out += mfile(rng, *rng.choice(ms), 3, .3) + ["obj %d %s" % (d, n)]
    return out
def run(c):
    exe = vbuild.build_driver("wf.c")
    c.model_check("WavefrontMC", "WavefrontMC.cfg")
    T = c.generate("WavefrontMC", "WavefrontGen.cfg") + c.generate("WavefrontMC", "WavefrontSim.cfg", simulate=(c.pick(300, 5000), 15))
    sc, cur = [], []
    for i, q in enumerate(T):
        cur += ["toks %d %s" % (c.rng.randrange(2), " ".join(q)), "obj 0 b.obj"]
        if len(cur) >= 400: sc.append(cur); cur = []
    if cur: sc.append(cur)
    c.conform("Wavefront", exe, sc, "wf-tokens")
    k = c.pick(1, 10)
    sc = [script(c.rng, c.rng.choice([1, 2, 4, 8, 20])) for _ in range(500 * k)] + [script(c.rng, c.rng.choice([60, 150, 400]), .05) for _ in range(24 * k)]
    c.conform("Wavefront", exe, sc, "wf-files")
