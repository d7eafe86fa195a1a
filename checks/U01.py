import json
import vbuild
from borrow import scripts
SRC = ["S01", "S02", "S03", "S04", "S05", "S06", "C01", "C02", "L01", "L02", "D01", "T01", "O01", "K01", "K02", "K03", "M02", "A01", "A02", "A03", "W01", "G01", "I01", "N01"]
# variables and fresh memory start with zeros / a pattern / another pattern; the scripts are executed in another order
WORLDS = [("zero", "0"), ("pattern", "85"), ("zero", "170")]
SKIP = ("geom-threads", "ik-restart")
RANDOM = {"randcfg": ["x"], "palloc": ["a"], "mtl": ["leak"], "obj": ["leak"]}   # documented to be random; addresses
def fixed(s):
    """no time limits: what a solver reaches in 3 ms depends on the machine"""
    out = []
    for l in s:
        w = l.split(" ")
        if w[0] == "iksolve": w[4] = "0"
        out.append(" ".join(w))
    return out
def clean(t):
    out = []
    for e in t or []:
        if e["op"] in ("crash", "mem"): break
        # touching pairs are FCL's choice (it depends on addresses): flags and closest points of theirs are not compared
        if e["op"] == "dist":
            e = dict(e, pairs=[{k: v for k, v in p.items() if k not in ("p0", "p1")} for p in e["pairs"]], min=[{k: v for k, v in m.items() if k in ("a", "big", "d")} for m in e["min"]])
            if any(abs(p["d"]) <= 1 and not p["big"] for p in e["pairs"]): del e["r"]
        if e["op"] == "check" and "k" in e: e = {"op": "check"}
        out.append({k: v for k, v in e.items() if k not in RANDOM.get(e["op"], ())})
        if e["op"] == "ikrand": out.pop(); break
    return out
def worlds(c, d, sc, name, timeout, jobs=8):
    kw = {k: v for k, v in d[1].items() if k != "variant"}; obs = []
    for i, (v, fill) in enumerate(WORLDS):
        exe = vbuild.build_driver(d[0], variant=v, **kw)
        order = list(range(len(sc)))
        if i: c.rng.shuffle(order)
        t = c.run_driver(exe, [sc[k] for k in order], "pure-" + name, timeout, env={"MALLOC_PERTURB_": fill}, jobs=jobs)
        r = [None] * len(sc)
        for k, x in zip(order, t): r[k] = clean(x)
        obs.append(r)
    out = []
    for k in range(len(sc)):
        o = [x[k] or [] for x in obs]; n = min(map(len, o))   # a crash ends the comparison: other checks judge it
        out.append([{"op": "call", "obs": [json.dumps(x[j], sort_keys=True) for x in o]} for j in range(n)])
    return out
def run(c):
    c.model_check("PureMC", "PureMC.cfg")
    T, src = [], []
    for mod, d, sc, name, timeout in list(scripts(c, c.pick(80, 800), src=SRC, build=lambda name, **k: (name, k), skip=SKIP)):
        sc = [fixed(s) for s in sc]
        for s, t in zip(sc, worlds(c, d, sc, name, timeout)):
            if t: T.append(t); src.append((d, s, name, timeout))
    c.notes["worlds"] = [" ".join(w) for w in WORLDS]
    if c.validate("Pure", T) is None: return c._sample("pure", [x[1] for x in src], T)
    for n in sorted(set(x[2] for x in src)):
        I = [i for i in range(len(T)) if src[i][2] == n and any(len(set(e["obs"])) > 1 for e in T[i])]
        for i in sorted(I, key=lambda i: len(src[i][1]))[:3]:
            d, s, _, timeout = src[i]
            if not c.conform_with("Pure", lambda: worlds(c, d, [s] * 3, "again", timeout, 1), s, d[0]): break
