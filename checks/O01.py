import vbuild
from L02 import S, ints
I = 9999
def bounds(rng, k, style, R):
    lo, hi = [], []
    for _ in range(k):
        a, b = sorted((rng.randint(-R, R), rng.randint(-R, R))); x = rng.random()
        if style == "box": pass
        elif x < .2: a = -I
        elif x < .4: b = I
        elif x < .5: a, b = -I, I
        elif x < .6: b = a
        elif x < .66 and a < b: a, b = b, a      # no point satisfies this one
        lo.append(a); hi.append(b)
    return lo, hi
def prob(rng, box=False):
    n = rng.choice([1, 2, 2, 2, 3]); m = rng.choice([1, 2, 2, 3]) if n < 3 else rng.choice([1, 2])
    A = ints(rng, m*n, rng.choice([1, 2, 3]))
    bl, bu = bounds(rng, m, "", 6); xl, xu = bounds(rng, n, "box" if box else rng.choice(["", "box"]), 3)
    if not box and rng.random() < .4: xl = [0]*n; xu = [x if x >= 0 else I for x in xu]
    return n, m, A, bl, bu, ints(rng, n, 3), xl, xu
SOLV = ["glpk", "clp", "lpsolve"]
def create(rng, op, p, s=None):
    n, m, A, bl, bu, c, xl, xu = p; fmt = rng.choice(["gm", "crs"]) if op == "once" else rng.choice(["gm", "gm", "crs"])
    s = s or rng.choice(SOLV + (["default", "g_glpk", "g_clp", "g_lpsolve"] if fmt == "gm" and op == "create" else []))
    return S(op, s, fmt, n, m, rng.choice([0, 0, 1, 3]), A, bl, bu, c, xl, xu), s
def once(rng): return create(rng, "once", prob(rng))[0]
def hist(rng):
    p = prob(rng, rng.random() < .3); n, m = p[0], p[1]; l, s = create(rng, "create", p); out = [l]
    if rng.random() < .8: out.append("solve")
    for _ in range(rng.randint(1, 5)):
        q = prob(rng)
        k = rng.choice(["obj", "bnd", "cstr", "dir", "solve", "solve", "quad" if rng.random() < .1 else "obj"])
        if k == "obj": out.append(S("obj", ints(rng, n, 3)))
        elif k == "bnd": a, b = bounds(rng, n, "", 3); out.append(S("bnd", a, b))
        elif k == "cstr": a, b = bounds(rng, m, "", 6); out.append(S("cstr", rng.choice([0, 2]), ints(rng, m*n, 3), a, b))
        elif k == "dir": out.append("dir " + rng.choice(["max", "min"]))
        else: out.append(k)
        if rng.random() < .5: out.append("solve")
    return out + ["solve"]
def mip(rng):
    p = prob(rng, True); n = p[0]; l, s = create(rng, "create", p, rng.choice(["glpk", "lpsolve", "default"]) if rng.random() < .9 else "clp")
    out = [l] + [S("type", i, rng.choice(["int", "int", "bin", "cont"])) for i in range(n) if rng.random() < .7] + ["solve"]
    if rng.random() < .5: out += [S("obj", ints(rng, n, 3)), "solve"]
    if rng.random() < .3: out += ["dir min", "solve"]
    if rng.random() < .4: out += [S("type", rng.randrange(n), rng.choice(["int", "cont"])), "solve"]
    return out
def run(c):
    c.model_check("LPMC", cfg=c.pick("LPMC.cfg", "LPMCBig.cfg"))
    exe = vbuild.build_driver("lp.c"); r = c.rng; n = c.pick(600, 12000)
    c.conform("LP", exe, [[once(r) for _ in range(4)] for _ in range(n)], "lp-once", timeout=60)
    c.conform("LP", exe, [hist(r) for _ in range(2*n)], "lp-histories", timeout=60)
    c.conform("LP", exe, [mip(r) for _ in range(n)], "lp-integer", timeout=60)
