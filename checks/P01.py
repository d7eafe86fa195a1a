import vbuild
def J(*a): return " ".join(str(x) for v in a for x in (v if isinstance(v, (list, tuple)) else [v]))
class W:
    def __init__(s, rng):
        s.rng = rng; X = rng.choice([4, 6, 8]); Y = rng.choice([4, 5, 7])
        s.lim = (-X + rng.randrange(3), X, -Y, Y - rng.randrange(2)); s.r = (rng.choice([1, 1, 2]), rng.choice([1, 1, 2])); s.obs = []
        k = rng.random()
        def any_(): return (rng.randrange(-2*X, 2*X + 1), rng.randrange(-2*Y, 2*Y + 1), rng.choice([1, 2, 3, 5]), rng.choice([1, 2, 3, 5]))
        if k < .45:      # a wall with a door or a gap
            gap = rng.randrange(-Y + 2, Y - 1); cx = rng.randrange(-2, 3); t = rng.choice([1, 2]); w = rng.choice([2, 3, 4])
            lo, hi = -Y - 3, Y + 3
            s.obs = [(2*cx, lo + gap - w, t, gap - w - lo), (2*cx, hi + gap + w, t, hi - gap - w)]
            s.door = (2*cx, 2*gap + rng.choice([0, 1]), t, w)
            if rng.random() < .4: s.obs.append(any_())
        else:
            s.obs = [any_() for _ in range(rng.randrange(0, 5))]; s.door = any_()
        s.mount = rng.random() < .3
        s.cmd = J("world", rng.randrange(3) + 3 * s.mount, s.lim, s.r, s.door, len(s.obs), *s.obs)
        s.names = ["y", "d"] + ["o%d" % (i+1) for i in range(len(s.obs))]
        if rng.random() < .15: s.cmd += " " + J(rng.sample(s.names, 2))
    def base(s, d): return (s.door[0], s.door[1] + 2*d) if s.mount else (0, 0)    # half units
    def hit(s, x, y, d, m=0):
        R = []; x += s.base(d)[0] / 2; y += s.base(d)[1] / 2
        for n, b in [("d", (s.door[0], s.door[1] + 2*d, s.door[2], s.door[3]))] + list(zip(s.names[2:], s.obs)):
            if abs(2*x - b[0]) < s.r[0] + b[2] + m and abs(2*y - b[1]) < s.r[1] + b[3] + m: R.append(n)
        return R
    def pt(s, d, free=.8):
        r = s.rng
        for _ in range(30):
            x, y = r.randint(s.lim[0], s.lim[1]), r.randint(s.lim[2], s.lim[3])
            if r.random() > free or not s.hit(x, y, d, 1.5): break
        if r.random() < .03: x = s.lim[1] + 1
        return x, y
    def reach(s, a, b, d):
        ok = lambda p: s.lim[0] <= p[0] <= s.lim[1] and s.lim[2] <= p[1] <= s.lim[3] and not s.hit(p[0], p[1], d, 1.5)
        if not (ok(a) and ok(b)): return False
        R = {a}; st = [a]
        while st:
            p = st.pop()
            for q in ((p[0]+1, p[1]), (p[0]-1, p[1]), (p[0], p[1]+1), (p[0], p[1]-1)):
                if q not in R and ok(q): R.add(q); st.append(q)
        return b in R
def hist(rng, ws=False):
    w = W(rng); out = [w.cmd]; d = 0; a = b = None; loose = False
    for _ in range(rng.randint(1, 4)):
        k = rng.random()
        if a is None or rng.random() < .6:
            if a is None and rng.random() < .04: out.append("plan 60")
            d = rng.choice([0, 0, 0, 7, 20, -20]); a = w.pt(d, .93); out.append(J("start", a, d))
        if rng.random() < .15: out.append(J("allowcfg", w.pt(d, .3), rng.choice([d, d, 0, 20])))
        if rng.random() < .25:
            p, q = rng.sample(w.names, 2); v = rng.randrange(2); out.append(J(rng.choice(["allow", "allow", "allowset"]), p, q, v)); loose = True
            if rng.random() < .3: out.append(J("allow", q, p, 1 - v))
        if rng.random() < .5: out.append(J("planner", rng.choice(["rrtc", "rrtc", "rrt", "sbl", "kpiece"])))
        if rng.random() < .3: out.append(J("simplify", rng.randrange(2)))
        if rng.random() < .3: out.append(J("track", rng.randrange(2)))
        if b is None or rng.random() < .8:
            if b is None and rng.random() < .04: out.append("plan 60")
            b = w.pt(d, .85); wa = None
            if rng.random() < (.4 if ws else 1): out.append(J("goal", b))
            else: wa = (2*b[0] + w.base(d)[0], 2*b[1] + w.base(d)[1]); out.append(J("wsgoal", rng.randrange(2), wa))
        if wa: b = ((wa[0] - w.base(d)[0]) // 2, (wa[1] - w.base(d)[1]) // 2)   # a workspace goal stays where it is when its base moves
        easy = w.reach(a, b, d)
        out.append("plan %d" % (8000 if easy else 60))
        if rng.random() < .15: out.append("plan %d" % (8000 if easy else 60))
    return out
def seq(rng):
    out = [W(rng).cmd]
    for _ in range(rng.randint(1, 8)):
        if rng.random() < .7: n = rng.choice([0, 1, 1, 2, 5]); out.append(J("seqadd", n, [rng.randint(-99, 99) for _ in range(4*n)]))
        else: out.append("seqget")
    return out + ["seqget"]
def gen(h):
    # a wall at x = 0 whose opening between y = -2 and 2 is filled by the door at 0 and free at 20; A = (-4, 0), B = (4, 0)
    out = ["world 0 -6 6 -5 5 1 1 0 0 2 4 2 0 -14 2 10 0 14 2 10"]; at = {"A": "-4 0", "B": "4 0"}; at2 = {"A": "-8 0", "B": "8 0"}
    for o in h:
        k = o[0]
        out.append("start %s %d" % (at[o[1]], 20 if o[2] == "open" else 0) if k == "start" else "allowcfg 0 0 0" if k == "allowcfg" else "allow d y %s" % o[1] if k == "allow" else
                   "goal " + at[o[1]] if k == "goal" else "wsgoal 0 " + at2[o[1]] if k == "wsgoal" else "planner " + o[1] if k == "planner" else "plan")
    st = None; al = False; g = None       # generous time where there is a way
    for i, l in enumerate(out):
        w = l.split()
        if w[0] == "start": st = w[1:3], w[3] != "0"
        elif w[0] == "allowcfg": al = True
        elif w[0] == "allow": al = w[3] == "1"
        elif w[0] in ("goal", "wsgoal"): g = w[-2:] if w[0] == "goal" else [str(int(v) // 2) for v in w[-2:]]
        elif w[0] == "plan": out[i] = "plan %d" % (8000 if g == st[0] or st[1] or al else 40)
    return out
def run(c):
    c.model_check("PlanMC", "PlanMC.cfg")
    g = c.generate("PlanMC", "PlanGen.cfg"); sim = c.generate("PlanMC", "PlanSim.cfg", simulate=(c.pick(600, 6000), 9))
    exe = vbuild.build_driver("plan.cpp", parts=("core", "collision", "planning"))
    c.conform("Plan", exe, [seq(c.rng) for _ in range(c.pick(150, 1500))], "plan-seq", timeout=100)
    c.conform("Plan", exe, [gen(h) for h in g + sim], "plan-generated", timeout=150, jobs=8)
    c.conform("Plan", exe, [hist(c.rng) for _ in range(c.pick(400, 4000))], "plan", timeout=150, jobs=8)
    c.conform("Plan", exe, [hist(c.rng, True) for _ in range(c.pick(120, 1200))], "plan-ws", timeout=150, jobs=8)
    tse = vbuild.build_driver("plan.cpp", parts=("core", "collision", "planning"), variant="tsan")
    if c.threads_checkable(tse): c.conform("Plan", tse, [hist(c.rng, True) for _ in range(c.pick(120, 1500))], "plan-race", timeout=150, jobs=8)
