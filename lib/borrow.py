"""Borrows the scripts of the other checks."""
import importlib, os, random
import vbuild
SRC = ["S01", "S02", "S03", "S04", "S05", "S06", "C01", "C02", "L01", "L02", "D01", "T01", "O01", "K01", "K02", "K03", "P01", "M01", "M02", "A01", "A02", "A03", "W01", "G01", "I01", "N01"]
class Rec:
    """stands in for a check's context and keeps the scripts it would run"""
    thorough = False
    def __init__(s, c, src): s.c, s.rng, s.out, s.src = c, random.Random(c.rng.random()), [], src
    def __getattr__(s, n): return getattr(s.c, n)
    def pick(s, a, b): return a
    def model_check(s, *a, **k): pass
    def generate(s, *a, **k): return []
    def threads_checkable(s, *a): return False
    def conform(s, mod, exe, scripts, name, timeout=300, jobs=1): s.out.append((mod, exe, [list(x) for x in scripts if x], name, timeout))
def scripts(c, n, skip=(), src=SRC, build=None):
    """-> (specification, executable, scripts, name, time limit) of every other check; build(name, **options) may replace the build of drivers"""
    real = vbuild.build_driver
    if build: vbuild.build_driver = build
    try:
        for k in os.environ.get("VERIF_SRC", " ".join(src)).split():
            r = Rec(c, k); importlib.import_module(k).run(r)
            for mod, exe, sc, name, timeout in r.out:
                if name in skip or not sc: continue
                yield mod, exe, (sc if len(sc) <= n else r.rng.sample(sc, n)), name, timeout
    finally: vbuild.build_driver = real
