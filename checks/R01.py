from borrow import scripts
def balance(c, exe, sc, name, timeout, jobs=8):
    """only the balance is judged here, and memory errors; not the results"""
    out = []
    for t in c.run_driver(exe, sc, name, timeout, jobs=jobs):
        t = [e for e in t if e["op"] == "mem" or e["op"] == "crash" and ("Sanitizer" in e.get("msg", "") or e.get("rc", 0) < 0 and e["how"] == "exit")]
        out.append(([{"op": "use"}] + t) if t else [])
    return out
def run(c):
    c.model_check("LifeMC", "LifeMC.cfg")
    T, src = [], []
    for mod, exe, sc, name, timeout in scripts(c, c.pick(80, 800), skip=("region-plain",)):
        sc = [s + ([] if s[-1] == "mem" else ["mem"]) for s in sc]
        for s, t in zip(sc, balance(c, exe, sc, "life-" + name, timeout)):
            if t: T.append(t); src.append((exe, s, "life-" + name, timeout))
    c.notes["sources"] = len(set(x[2] for x in src))
    if c.validate("Life", T) is None: return c._sample("life", [x[1] for x in src], T)
    # each driver's rejected traces again, one at a time
    for n in sorted(set(x[2] for x in src)):
        I = [i for i in range(len(T)) if src[i][2] == n and any(e["op"] == "crash" or e["op"] == "mem" and (e["left"] or not e["top"] or e["fds"]) for e in T[i])]
        for i in sorted(I, key=lambda i: len(src[i][1]))[:3]:
            if not c.conform_with("Life", lambda: balance(c, src[i][0], [src[i][1]], "life-again", src[i][3], 1), src[i][1], src[i][0]): break
