import vbuild
FN = "abcdef"
P = ("core", "collision")
def gparams(rng, k):
    d = lambda: rng.choice([100, 250, 500, 1000, 2000, rng.randrange(1, 5000)])
    return [d() for _ in range({"box": 3, "sphere": 1, "cylinder": 2, "cone": 3, "grid": 5, "torus": 3, "octree": 0}[k])]
def J(*a): return " ".join(str(x) for v in a for x in (v if isinstance(v, (list, tuple)) else [v]))
def script(rng, h):
    """a behaviour of GeomMC: geometry kinds become concrete shapes"""
    s = ["mesh", "mset 1 vertices 6 1 0", "mset 1 indices 2 1 0", "sgnew 0", "frame 0 0 -1", "frame 0 1 -1"]
    if rng.random() < .5: s.append(opt(rng, 1))
    for e in h:
        o = e["op"]; i = e.get("i", 1) - 1; f = FN.find(e.get("f", "a")); g = e.get("g")
        if o == "geom":
            k = e["k"] if e["k"] == "mesh" else rng.choice(["box", "sphere", "cylinder", "cone", "grid", "torus"])
            s.append(J("geom 0", k, [1] if k == "mesh" else gparams(rng, k)))
        elif o == "modopt": s.append(J("modopt", g, 1))
        elif o in ("copy", "destroy"): s.append(J(o, g))
        elif o == "attach": s.append(J(o, i, f, g))
        elif o == "mdestroy": s.append("mdestroy 1")
        elif o == "frame": s.append(J(o, i, f, -1))
        elif o == "rmframe": s.append(J(o, i, f))
        elif o == "cpframe": s.append(J(o, i, f, FN.find(e["t"])))
        elif o == "sgcopy": s.append(J(o, i, e["j"] - 1))
        elif o == "sgdel": s.append(J(o, i))
        if rng.random() < .05 and o == "attach": s.append(J("cl", i))
    return s + ["mem"]
def opt(rng, s):
    v = lambda: rng.choice([0, 1000, 250, rng.randrange(1001)])
    f = rng.choice(["color", "specular", "alpha", "scale", "no_shadow", "visual", "collision"])
    return J("opt", s, f, [v(), v(), v()] if f in ("color", "specular") else v() + 1 if f in ("alpha", "scale") else rng.choice([0, 1, 2, 256, -1]))
class R:
    """random histories over the whole interface, keeping track of which handles may be used"""
    def __init__(s, rng): s.r = rng; s.out = []; s.user = {}; s.n = 0; s.kind = {}; s.gm = {}; s.m = {}; s.mok = {}; s.sg = {}; s.o = lambda *a: s.out.append(J(*a))
    def held(s): return [g for g in range(1, s.n + 1) if s.rc(g)]
    def rc(s, g): return s.user[g] + sum(q.count(g) for S in s.sg.values() for q in S.values())
    def mlive(s): return [m for m in s.m if s.m[m] or any(s.gm[g] == m for g in s.held())]
    def addg(s, k, m): s.n += 1; s.user[s.n] = 1; s.kind[s.n] = k; s.gm[s.n] = m
    def step(s):
        r = s.r; x = r.random(); H = s.held(); U = [g for g in H if s.user[g]]
        if x < .1: s.out.append(opt(r, r.randrange(4)))
        elif x < .27 and s.n < 40:
            k = r.choice(["box", "sphere", "cylinder", "cone", "grid", "torus", "mesh", "mesh", "octree"]); o = r.randrange(4)
            if k == "mesh":
                M = s.mlive()
                if not M: return
                m = r.choice(M); s.o("geom", o, k, m); s.addg(k, m)
            else: s.o("geom", o, k, gparams(r, k)); s.addg(k, 0)
        elif x < .32 and H and s.n < 40: g = r.choice(H); s.o("modopt", g, r.randrange(4)); s.addg(s.kind[g], s.gm[g])
        elif x < .38 and H: g = r.choice(H); s.o("copy", g); s.user[g] += 1
        elif x < .46 and U: g = r.choice(U); s.o("destroy", g); s.user[g] -= 1
        elif x < .5 and len(s.m) < 12: m = len(s.m) + 1; s.o("mesh"); s.m[m] = 1; s.mok[m] = 0
        elif x < .6 and s.mlive():
            m = r.choice(s.mlive()); w = r.choice(["vertices", "vertices", "indices", "indices", "normals", "uv", "rgba", "texture"])
            k = r.choice([1, 2, 5, 8])
            if w in ("vertices", "indices"):
                # keep triangles inside the vertices: collision models are made from them
                s.o("mset", m, "indices", 0, 1, 0); s.o("mset", m, "vertices", 3 * k, r.randrange(2), r.choice([0, 0, 100])); s.o("mset", m, "indices", k, r.randrange(2), 0); s.mok[m] = 1
            elif w == "texture":
                if s.mok[m]: s.o("mset", m, w, 1, 1, 0)
            else: s.o("mset", m, w, k, r.randrange(2), 3)
        elif x < .64 and s.m:
            M = [m for m in s.m if s.m[m]]
            if M: m = r.choice(M); s.o("mdestroy", m); s.m[m] -= 1
        elif x < .68 and len(s.sg) < 3: i = [i for i in range(3) if i not in s.sg][0]; s.o("sgnew", i); s.sg[i] = {}
        elif x < .75 and s.sg: i = r.choice(list(s.sg)); f = r.randrange(6); s.o("frame", i, f, -1); s.sg[i][f] = []
        elif x < .87 and s.sg and U:
            i = r.choice(list(s.sg))
            if s.sg[i]: f = r.choice(list(s.sg[i])); g = r.choice(U); s.o("attach", i, f, g); s.user[g] -= 1; s.sg[i][f].append(g)
        elif x < .9 and s.sg:
            i = r.choice(list(s.sg))
            if len(s.sg[i]) > 1:
                f, t = r.sample(list(s.sg[i]), 2)
                if len(s.sg[i][f]) + len(s.sg[i][t]) < 12: s.o("cpframe", i, f, t); s.sg[i][t] += s.sg[i][f]
        elif x < .92 and s.sg and len(s.sg) < 3:
            i = r.choice(list(s.sg)); j = [j for j in range(3) if j not in s.sg][0]; s.o("sgcopy", i, j); s.sg[j] = {f: list(q) for f, q in s.sg[i].items()}
        elif x < .94 and s.sg: i = r.choice(list(s.sg)); s.o("sgdel", i); del s.sg[i]
        elif x < .96 and s.sg:
            i = r.choice(list(s.sg))
            if s.sg[i]: f = r.choice(list(s.sg[i])); s.o("rmframe", i, f); del s.sg[i][f]
        elif x < .99 and s.sg:
            i = r.choice(list(s.sg)); Q = [g for q in s.sg[i].values() for g in q]
            if all(s.kind[g] != "mesh" or s.mok[s.gm[g]] == 1 for g in Q): s.o("cl", i)
        elif r.random() < .6:
            R = [g for g in U for _ in range(s.user[g])] + [-m for m in s.m for _ in range(s.m[m])]
            if R:
                r.shuffle(R); R = R[:r.randrange(1, 9)]; s.o("pdrop", R)
                for k in R:
                    if k > 0: s.user[k] -= 1
                    else: s.m[-k] -= 1
        elif H: s.o("par", r.choice(H), r.choice([2, 4, 8]), 20)
def rand(rng, n):
    s = R(rng)
    for _ in range(n): s.step()
    return s.out + ["mem"]
def par(rng):
    return ["mesh", "mset 1 vertices 3 1 0", "geom 0 mesh 1", "geom 0 box 1 1 1"] + [J("par", rng.choice([1, 2]), 8, 60) for _ in range(3)] + \
        [l for i in range(6) for l in drops(rng, 2 + i)] + ["mem"]
def drops(rng, m):
    """the last references to a geometry and its mesh, dropped together"""
    g = 3 + 3 * (m - 2); n = rng.randrange(3); d = ([g] * (1 + n) + [g + 1] * 1 + [g + 2, -m]); rng.shuffle(d)
    return ["mesh", "mset %d vertices 3 1 0" % m, "geom 0 mesh %d" % m, "geom 0 mesh %d" % m, "geom 0 sphere 1"] + ["copy %d" % g] * n + [J("pdrop", d)]
def octo(rng, n):
    out = [opt(rng, 1)]
    for _ in range(n):
        V = {}; k = rng.random(); res = rng.choice([100, 250, 500, 1000, 2000, 50]); c = [rng.choice([0, -8, 4, -4, 8, 2, -3, -10]) for _ in range(3)]
        if k < .5: # a full cube of 2 or 4, possibly missing some, plus loose ones
            e = rng.choice([2, 2, 4])
            c = [v // e * e for v in c]
            for a in range(e):
                for b in range(e):
                    for d in range(e): V[c[0]+a, c[1]+b, c[2]+d] = 1
            for _ in range(rng.choice([0, 0, 1, 3])): V[rng.choice(list(V))] = 0
        for _ in range(rng.randrange(0, 12)): V[tuple(c[i] + rng.randrange(-4, 5) for i in range(3))] = rng.choice([1, 1, 0])
        out.append(J("octo", res, rng.choice([0, 1, 1, 1, -1]), rng.choice([1, 1, 0]), len(V), *[list(p) + [v] for p, v in V.items()]))
    for k in ["good", "other", "garbage", "none"]: out.insert(rng.randrange(len(out)), J("octfile", k, rng.randrange(1, 5)))
    return out + ["mem"]
def run(c):
    exe = vbuild.build_driver("geom.cpp", parts=P, extra=["-lpthread"])
    c.model_check("GeomMC", c.pick("GeomMC.cfg", "GeomMCT.cfg"))
    H = c.generate("GeomMC", "GeomGen.cfg") + c.generate("GeomMC", "GeomSim.cfg", simulate=(c.pick(400, 5000), 17))
    c.conform("Geom", exe, [script(c.rng, h) for h in H], "geom-gen")
    k = c.pick(1, 10)
    c.conform("Geom", exe, [rand(c.rng, c.rng.choice([20, 60, 120])) for _ in range(150 * k)] + [par(c.rng) for _ in range(3 * k)], "geom-rand")
    c.conform("Geom", exe, [octo(c.rng, 6) for _ in range(40 * k)], "geom-octree")
    t = vbuild.build_driver("geom.cpp", variant="tsan", parts=P, extra=["-lpthread"])
    if c.threads_checkable(t): c.conform("Geom", t, [par(c.rng) for _ in range(5 * k)], "geom-threads")
