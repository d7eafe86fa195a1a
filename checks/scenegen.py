"""Shared generators of scene-graph scripts (S01..S05)."""
QUATS = [(0,0,0,1)] * 3 + [(1,0,0,1), (0,1,0,1), (0,0,1,1), (-1,0,0,1), (0,-1,0,1), (0,0,-1,1), (1,0,0,0), (0,1,0,0), (0,0,1,0),
         (1,1,1,1), (1,-1,1,1), (1,1,0,0), (0,1,-1,0)]
QUATS5 = [(1,0,0,2), (0,1,0,2), (0,0,1,3), (0,-2,0,1)]
REV = [(0,1), (1,1), (-1,1), (1,0), (-1,1), (1,1)]
REV5 = [(1,2), (2,1), (-1,2), (1,3)]
AX = [(1,0,0,1), (0,1,0,1), (0,0,1,1), (-1,0,0,1), (0,-1,0,1), (0,0,-1,1)]
class Scene:
    """Generator-side bookkeeping only (names, types, config types): never an oracle."""
    def __init__(s, rng, h, budget=2):
        s.rng, s.h, s.fr, s.cfgtype, s.budget = rng, h, {}, {}, budget
    def qv(s):
        r = s.rng
        q = r.choice(QUATS)
        if s.budget > 0 and r.random() < .15: q = r.choice(QUATS5); s.budget -= 1
        v = [r.randrange(-4, 5) for _ in range(3)]
        return "%d %d %d %d %d %d %d %d" % (*q, *v, r.choice([1, 1, 1, 2]))
    def add(s, name, parent, typ=None, cfg=None):
        r = s.rng
        t = typ or r.choice(["fixed", "fixed", "revolute", "revolute", "prismatic"])
        cfg = cfg or ("-" if r.random() < .4 else "q%d" % r.randrange(4))
        cn = name if cfg == "-" else cfg
        if t != "fixed":
            # a configuration shared between joints keeps one interpretation
            used = {f[2] for n, f in s.fr.items() if n != name and f[1] != "fixed" and f[0] == cn}
            if used and t not in used: t = used.pop()
        ax = list(r.choice(AX))
        off = (0, 1)
        if r.random() < .4: off = r.choice(REV) if t == "revolute" else (r.randrange(-3, 4), 1)
        if t == "prismatic" and r.random() < .2: ax = [3, 0, -4, 5]
        nulls = r.choice([0, 0, 0, 0, 1, 2, 3])
        s.fr[name] = (cn, t, t, parent)
        return "add %d %s %s %s %s %s %d %d %d %d %d %d %d" % (s.h, name, parent or "-", t, cfg, s.qv(), *ax, *off, nulls)
    def rm(s, name):
        s.fr.pop(name, None); return "rm %d %s" % (s.h, name)
    def reparent(s, name, parent, byid=0):
        a, t, t2, _ = s.fr[name]; s.fr[name] = (a, t, t2, parent)
        return "reparent %d %d %s %s %s" % (s.h, byid, name, parent or "-", s.qv())
    def ok(s):
        for n in s.fr:
            k, seen = n, 0
            while k:
                if k not in s.fr or seen > len(s.fr): return False
                k = s.fr[k][3]; seen += 1
        return True
    def ncfg(s):
        return len({f[0] for f in s.fr.values() if f[1] != "fixed"})
    def depth(s):
        d = 0
        for n in s.fr:
            k, i = n, 0
            while k and i < 99: k = s.fr[k][3]; i += 1
            d = max(d, i)
        return d
    def cfg(s, five=1):
        """One (n d) pair per configuration: valid both as half-angle tangent and as a length."""
        r, out = s.rng, []
        for _ in range(s.ncfg()):
            v = r.choice(REV)
            if five > 0 and r.random() < .1: v = r.choice(REV5); five -= 1
            out.append(v)
        return out
    def cfgstr(s, five=1):
        # prismatic joints need a nonzero denominator: (1,0) only when no prismatic joint exists
        p = any(f[1] == "prismatic" for f in s.fr.values())
        return " ".join("%d %d" % ((1, 1) if p and v[1] == 0 else v) for v in s.cfg(five))
FKAPI = ["tf", "tfmat", "duqu", "update", "fk", "fkinc", "gettf"]
def fks(s, n=2, apis=FKAPI):
    out = []
    for _ in range(n):
        out.append("fk %d %s %d %s" % (s.h, s.rng.choice(apis), s.rng.choice([0, 0, 1, 3]), s.cfgstr()))
    return out
def tree(rng, h, n, budget=2, typ=None, maxdepth=4):
    """A random well-formed scene of n frames."""
    s = Scene(rng, h, budget); out = []; names = []
    pool = ["f%d" % i for i in range(n)]; rng.shuffle(pool)
    dep = {"": 0}
    for nm in pool:
        par = rng.choice([x for x in [""] + names[-4:] if dep[x] < maxdepth])
        names.append(nm); dep[nm] = dep[par] + 1
        out.append(s.add(nm, par, typ))
    rng.shuffle(out)
    return s, out
