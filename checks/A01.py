import vbuild
from tfgen import *
def rand(rng):
    g = G(rng); g.pert = .3
    five = 1
    for rep in rng.sample(REPS, 4):
        q = rng.choice(Q90)
        if five and rng.random() < .5: q = rng.choice(QGEN); five = 0
        g.mk(rep, q)
    used = [0] * 64; dep = {k: 1 for k in range(1, 5)}
    for _ in range(14):
        k = rng.randrange(1, len(g.reps) + 1); n = len(g.reps); r = rng.random(); d = dep[k]
        if r < .45: g.conv(k)
        elif r < .55: g.norm(k)
        elif r < .65: g.inv(k)
        elif r < .85:
            c = [j for j in range(1, n + 1) if g.reps[j-1] == g.reps[k-1] and dep[j] + dep[k] <= 3]
            if c:
                j = rng.choice(c); g.bin(k, j); d = dep[k] + dep[j]
        else: g.pt(k)
        if len(g.reps) > n: dep[len(g.reps)] = d
    return g.out
def edge(rng, rep, q, pert=0):
    g = G(rng); g.pert = pert; k = g.mk(rep, q, rng.choice(VS[:6])); ks = [k]
    for api, to in sorted(CONV[rep].items()): ks.append(g.do("conv %s %d" % (api, k), to))
    for j in ks[1:]:
        j2 = g.conv(j); g.conv(j2)
    g.inv(k); g.norm(k); g.pt(k)
    return g.out
def run(c):
    exe = vbuild.build_driver("tf.c"); c.model_check("TFMC")
    c.conform("TF", exe, [rand(c.rng) for _ in range(c.pick(1500, 15000))], "tf-random")
    c.conform("TF", exe, [edge(c.rng, rep, q) for rep in REPS for q in Q90 + QGEN + QEDGE], "tf-edge")
    # the same motions moved by amounts far below the resolution of the observations
    c.conform("TF", exe, [edge(c.rng, rep, q, 1) for _ in range(c.pick(2, 30)) for rep in REPS for q in Q90 + QGEN + QEDGE], "tf-perturbed")
    # every binary operation of every representation on a grid of operands
    sc = []
    for rep in REPS:
        for op, T in (("mul", MUL), ("imul", IMUL), ("muli", MULI)):
            for api in T.get(rep, "").split():
                for _ in range(c.pick(12, 60)):
                    g = G(c.rng); g.mk(rep, c.rng.choice(Q90 + QGEN)); g.mk(rep, c.rng.choice(Q90 + QGEN)); g.do("%s %s 1 2 0" % (op, api), rep); g.do("%s %s 2 1 1" % (op, api), rep); g.do("%s %s 1 1 0" % (op, api), rep); sc.append(g.out)
    c.conform("TF", exe, sc, "tf-binary")
    V = [(a, b, d) for a in (-3, 0, 1) for b in (0, 2, -1) for d in (-2, 0, 5)]
    sc = [["vec %s %s" % (f(c.rng.choice(V)), f(c.rng.choice([v for v in V if any(v)]))), "qalg %s %s" % (f([c.rng.randrange(-9, 10) for _ in range(4)]), f([c.rng.randrange(-9, 10) for _ in range(4)]))] for _ in range(200)]
    c.conform("TF", exe, sc, "tf-vec")
