import vbuild
def dig(b):
    h = 2166136261
    for c in b: h = ((h ^ c) * 16777619) & 0xffffffff
    return "%d:%08x" % (len(b), h)
def enc(s): return "".join(c if c.isalnum() or c in ".+-,_" else "%%%02x" % ord(c) for c in s) or "%"
def num(rng):
    """(thousandths, text)"""
    k = rng.random()
    v = rng.choice([0, rng.randint(-9, 9)*1000, rng.randint(-99999, 99999), rng.randint(-9999, 9999)*100])
    a = abs(v); s = "-" if v < 0 else rng.choice(["", "", "+"])
    if k < .3 and a % 1000 == 0: t = s + str(a//1000) + rng.choice(["", ".", ".0", "e0"])
    elif k < .5: t = s + "%d.%03de%s" % (a//100000, a % 100000//100, "+02") if a % 100 == 0 else s + "%d.%03d" % (a//1000, a % 1000)
    elif k < .6: t = s + "%de-3" % a
    elif k < .7 and 0 < a < 1000: t = s + (".%03d" % a)
    else: t = s + "%d.%03d" % (a//1000, a % 1000) + rng.choice(["", "0", "000"])
    return v, t
SP = [" ", " ", " ", "\t", "  ", " \t "]
def text(rng, xs, t, length=0):
    """a line with the numbers xs (value, text) and tail t -> text, blanks skipped, offset at which parsing ends"""
    s = rng.choice(["", "", "", " ", "\t", "  "]); skip = len(s); end = 0
    for i, (v, w) in enumerate(xs):
        s += w; s += rng.choice(SP) if i + 1 < len(xs) else rng.choice(["", "", " ", "\t "])
        end = len(s)
    if not xs and t == "n" : skip = len(s)
    if length > len(s) + 2:   # padding: blanks before the tail
        pad = " "*(length - len(s)); s += pad
        if xs: end = len(s)
        else: skip = len(s)
    if t == "c": s += "#" + rng.choice(["", " comment", "1 2 3", " 4.5 # x"])
    elif t == "j": s += rng.choice(["@", ",3", "/ 2", "_1 2", "@ 5 6"])
    return s, skip, end
def line(rng, xs, t, length=0):
    s, skip, end = text(rng, xs, t, length)
    return s, " ".join(["line", enc(s), dig(s.encode()), str(skip), str(end), t] + [str(v) for v, _ in xs])
def file(rng, specs, nl, big=False):
    out, txt = ["file"], []
    for n, t in specs:
        s, c = line(rng, [num(rng) for _ in range(n)], t, rng.choice([0, 0, rng.randrange(1, 700)]) if big else 0)
        txt.append(s); out.append(c)
    b = "\n".join(txt) + ("\n" if nl and txt else "")
    return out + ["open %d %s" % (nl, dig(b.encode()))], len(specs)
def history(rng, h):
    specs = [(len(e["x"]), e["t"]) for e in h if e["op"] == "line"]; s = ["region %d" % rng.choice([1, 16, 64, 100, 4096])]
    f, _ = file(rng, specs, rng.randrange(2)); s += f
    for e in h:
        o = e["op"]
        if o == "getvec": s.append("getvec %d %d %d" % (rng.choice([0, 1, 2]), e["n"], rng.choice([1, 1, 2, 3])))
        elif o == "fix": s.append("fix %d %d %d" % (e["m"], e["n"], e["m"] + rng.randrange(3)))
        elif o == "heap": s.append("heap %d %d" % (e["n"], rng.choice([-1, 0, 0, 1, 2, 5, 40])))
        elif o in ("rewind", "getline"): s.append(o)
    return s + ["mem"]
def session(rng, k):
    s = []
    for _ in range(k):
        s.append("region %d" % rng.choice([1, 16, 32, 64, 100, 256, 1000, rng.randrange(1, 2000)]))
        if rng.random() < .3:
            m, n = rng.randint(1, 5), rng.randint(1, 5); c = rng.randrange(2)
            v = lambda: rng.choice([0, rng.randint(-9, 9)*1000, rng.randint(-999999, 999999), rng.randint(-1999999, 1999999)])
            s.append(" ".join(map(str, ["write", c, m, n, m + rng.randrange(3)] + [v() for _ in range(m*n)])) if rng.random() < .8 else " ".join(map(str, ["print", rng.randint(1, 3)] + [v() for _ in range(n)])))
            if s[-1].startswith("print"): c, m, n = 1, n, 1
            w, l = (m, n) if c else (n, m)       # numbers per line, lines
            for _ in range(rng.randint(1, 3)): s += [rng.choice(["heap %d %d" % (w, rng.choice([-1, 0, 1, w, w*l, 3])), "fix %d %d %d" % (l, w, l + rng.randrange(2)), "getvec 0 %d 1" % w, "fix %d %d %d" % (l + 1, w + 1, l + 1)]), "rewind"]
            continue
        w = rng.randint(1, 4); big = rng.random() < .6; pj = rng.choice([0, 0, .1, .3])
        specs = []
        for _ in range(rng.choice([0, 1, 2, 3, 5, 9, 20])):
            x = rng.random()
            specs.append((0, "n") if x < .1 else (0, "c") if x < .2 else (0, "j") if x < .2 + pj/3 else (rng.randint(0, w), rng.choice("nj")) if x < .2 + pj else (w + rng.choice([0, 0, 0, 2]), rng.choice("nnnc")))
        if rng.random() < .15: specs.append((rng.choice([20, 64, 100]), "n"))
        f, n = file(rng, specs, rng.randrange(2), big); s += f
        for _ in range(rng.randint(2, 10)):
            o = rng.choice(["getline", "getline", "getvec", "fix", "heap", "heap", "dparse", "dparse", "parse", "skip", "slurp", "rewind", "popall"])
            k2 = rng.randrange(n) if n else 0
            if o in ("dparse", "parse", "skip") and not n: continue
            s.append({"getvec": "getvec %d %d %d" % (rng.choice([0, 1, 2]), rng.randint(0, w + 2), rng.randint(1, 3)), "fix": "fix %d %d %d" % (rng.randint(0, 4), w, 5), "heap": "heap %d %d" % (rng.choice([w, w, 1]), rng.choice([-1, 0, 0, 1, 2, w, 3*w, 50])),
                      "dparse": "dparse %d %d" % (k2, rng.randrange(2)), "parse": "parse %d %d %d %d" % (k2, rng.randint(0, w + 2), rng.randint(1, 3), rng.randrange(2)), "skip": "skip %d" % k2, "slurp": "slurp %d 1" % rng.choice([0, 1, 15, 16, 17, 100])}.get(o, o))
    return s + ["mem"]
def edges(rng):
    """lines whose length runs over the room left in the region"""
    out = []
    for size in (16, 32, 64, 128):
        for n in range(0, 2*size + 6, 1 if size < 65 else 3):
            s = ["region %d" % size]; t, c = line(rng, [], "n", n) if n else line(rng, [], "n"); u, d = line(rng, [(7000, "7")], "c")
            s += ["file", c, d, "open 1 %s" % dig((t + "\n" + u + "\n").encode()), "getline", "getline", "popall", "rewind", "getline", "getvec 1 2 1"]; out.append(s)
        for n in range(0, size//8*2 + 3):
            s = ["region %d" % size]; t, c = line(rng, [(i*1000, str(i)) for i in range(n)], "n"); s += ["file", c, "open 0 %s" % dig(t.encode()), "dparse 0 1", "getline", "dparse 0 0", "popall"]; out.append(s)
    return out
def run(c):
    exe = vbuild.build_driver("textio.c")
    c.model_check("TextIOMC", "TextIOMC.cfg")
    H = c.generate("TextIOMC", "TextIOSim.cfg", simulate=(c.pick(400, 6000), 12))
    c.conform("TextIO", exe, edges(c.rng), "io-edges", timeout=60)
    c.conform("TextIO", exe, [history(c.rng, h) for h in H], "io-histories", timeout=60)
    c.conform("TextIO", exe, [session(c.rng, 3) for _ in range(c.pick(700, 9000))], "io-sessions", timeout=60)
