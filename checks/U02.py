import os, shutil, subprocess, tempfile, json, re
import vbuild
from vlib import MachineryError
from borrow import scripts
from U01 import SRC, SKIP, fixed, clean
import concurrent.futures as cf
ALL = ("core", "collision", "planning")
def host(c):
    """the executable with the whole library, and how to build drivers as plug-ins of it"""
    for v in ("tsanpic", "plainpic"):
        exe = vbuild.build_driver("host.c", variant=v, parts=ALL, extra=["-ldl", "-lpthread"])
        if v == "plainpic" or c.threads_checkable(exe): return exe, v
def execute(c, exe, jobs, timeout):
    """jobs: one (plug-in, scripts) per thread. -> their traces, and a report when the process died"""
    d = tempfile.mkdtemp(dir=c.work); args = []
    for i, (so, sc) in enumerate(jobs):
        p = os.path.join(d, "p%d.so" % i); shutil.copyfile(so, p)
        with open(os.path.join(d, "s%d" % i), "w") as f:
            for k, s in enumerate(sc): f.write("T %d\n" % k + "".join(l + "\n" for l in s))
            f.write("E\n")
        args += [p, os.path.join(d, "s%d" % i), os.path.join(d, "l%d" % i)]
    e = dict(os.environ, TSAN_OPTIONS="halt_on_error=1:exitcode=66:report_signal_unsafe=0:history_size=4", OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1", VERIF_TMP=d)
    try:
        p = subprocess.run([exe] + args, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout, env=e, cwd=d, text=True, errors="replace"); rc, err = p.returncode, p.stderr
    except subprocess.TimeoutExpired: rc, err = -1, "threads did not finish within %ss" % timeout
    T = []
    for i in range(len(jobs)):
        t = []; T.append(t); f = os.path.join(d, "l%d" % i)
        for l in open(f, errors="replace") if os.path.exists(f) else ():
            l = l.rstrip("\n")
            if l.startswith("T "): t.append([])
            elif l and l != "E":
                try: t[-1].append(json.loads(l))
                except ValueError: pass
    shutil.rmtree(d, ignore_errors=True)
    if rc == 3: raise MachineryError("host rejected its scripts: " + err[-1500:])
    return T, ({"rc": rc, "err": err} if rc else None)
def together(c, exe, jobs, timeout):
    """every thread's traces when all run at once, against those of the thread alone"""
    with cf.ThreadPoolExecutor(len(jobs)) as ex: alone = list(ex.map(lambda j: execute(c, exe, [j], timeout), jobs))
    both, bad = execute(c, exe, jobs, timeout)
    out = []
    if bad and not any(a[1] for a in alone):
        m = re.search(r"(WARNING: ThreadSanitizer[^\n]*|[^\n]*[Aa]ssert[^\n]*|terminate called[^\n]*|AMINO ERROR[^\n]*)", bad["err"])
        out.append([{"op": "crash", "how": "threads", "rc": bad["rc"], "msg": (m.group(1) if m else bad["err"][-300:])[:300], "detail": bad["err"][:4000]}])
        return out
    for (a, _), b in zip(alone, both):
        for x, y in zip(a[0], b):
            x, y = clean(x), clean(y); n = min(len(x), len(y))
            t = [{"op": "call", "obs": [json.dumps(x[k], sort_keys=True), json.dumps(y[k], sort_keys=True)]} for k in range(n)]
            if t: out.append(t)
    return out
def shared(c, v):
    """one finished scene, several threads"""
    from collgen import scene
    exe = vbuild.build_driver("share.c", variant=v, parts=("core", "collision"), extra=["-lpthread"]); S = []
    for i in range(c.pick(150, 3000)):
        s, out = scene(c.rng, c.rng.choice([2, 4, 6, 8]), R=c.rng.choice([1, 2, 3]), maxdepth=8)
        if c.rng.random() < .5: out += ["init", "sgallow 1 %s %s 1" % s.pair()]
        S.append(out + ["init", "par %d %d %d %d %s" % (c.rng.randrange(2, 7), c.rng.randrange(4, 20), c.rng.randrange(-1, 10), c.rng.randrange(10**6), s.pair()[0])])
    c.conform("Pure", exe, S, "shared-scene", timeout=300, jobs=4)
def bad(T): return any(e["op"] == "crash" or len(set(e["obs"])) > 1 for t in T for e in t)
def run(c):
    c.model_check("PureMC", "PureMC.cfg")
    exe, v = host(c)
    pool = []
    for mod, d, sc, name, timeout in list(scripts(c, c.pick(60, 500), src=SRC, build=lambda name, **k: (name, k), skip=SKIP)):
        kw = {k: x for k, x in d[1].items() if k not in ("variant", "parts", "extra")}
        so = vbuild.build_driver(d[0], variant=v, shared=True, **kw)
        pool.append((name, so, [fixed(s) for s in sc]))
    groups = []; r = c.rng
    for k in range(c.pick(2, 12)):   # each source with itself, and a mixture of sources
        for p in pool: groups.append([(p[1], r.sample(p[2], min(len(p[2]), 12))) for _ in range(4)])
        for _ in range(len(pool)): groups.append([(p[1], r.sample(p[2], min(len(p[2]), 12))) for p in r.sample(pool, min(len(pool), 5))])
    shared(c, v[:-3])
    if not groups: return
    c.notes["threads"] = {"build": v, "groups": len(groups), "sources": [p[0] for p in pool]}
    with cf.ThreadPoolExecutor(3) as ex: R = list(ex.map(lambda g: together(c, exe, g, 240), groups))
    T = [t for x in R for t in x]
    c._sample("threads", [["(several)"]] * len(T), T)
    if c.validate("Pure", T) is None: return
    n = 0
    for g, x in zip(groups, R):
        if not bad(x) or n >= 3: continue
        def again():
            for _ in range(5):
                y = together(c, exe, g, 240)
                if bad(y): return y
            return y
        n += not c.conform_with("Pure", again, ["%s: %s" % (os.path.basename(so), " | ".join(s)) for so, sc in g for s in sc], exe)
