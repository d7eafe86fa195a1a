"""Out-of-tree build of golems/amino from /repo's working tree.

Objects are compiled (gcc, AddressSanitizer by default) into
/verif/.build/<variant>/ and cached by a content hash over the command line,
the source and every header it includes, so that an edited tree is always
rebuilt and an unchanged one is not.
"""
import hashlib, os, subprocess, sys, concurrent.futures as cf, shutil, fcntl

REPO = os.environ.get("VERIF_REPO", "/repo")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BUILD = os.environ.get("VERIF_BUILD", os.path.join(VERIF, ".build"))
GEN = os.path.join(VERIF, "gen")

CORE = """src/mem.c src/refcount.c src/mat.c src/la.c src/la2.c src/opt/opt.c src/tf.c
src/tf/tfmatrix.c src/tf/quat.c src/tf/tfp.c src/diffeq.c src/tf/conv.c src/mac/euler_f2c.c
src/rx/rxerr.c src/rx/errstr.c src/rx/scenegraph.cpp src/rx/sg_api.cpp src/rx/sg_capi.c
src/rx/scene_geom.c src/rx/geom_opt.c src/rx/scene_kin.c src/rx/scene_sub.cpp src/rx/ik_opt.c
src/rx/scene_ik.c src/rx/plugin.c src/rx/rx_ct.c src/rx/scene_wk.c src/rx/lc3.c src/rx/mp_seq.cpp
src/ct/traj.cpp src/ct/state.c src/math.c src/plot.c src/debug.c src/kin.c src/validate.c src/time.c
src/io.c src/are.c src/sigsys.c src/heap.c src/cv.c src/wavefront/wf_obj.c src/wavefront/wf_mtl.c
src/rx/octree_geom.cpp src/rx/sg_octree.cpp
src/opt/opt_lpsolve.c src/opt/opt_glpk.c src/opt/opt_clp.cpp""".split()
COLLISION = ["src/rx/amino_fcl.cpp", "src/rx/collision_set.cpp"]
PLANNING = ["src/rx/mp/" + f for f in ("scene_ompl.cpp", "scene_state_space.cpp",
            "scene_state_validity_checker.cpp", "workspace_goal.cpp",
            "ompl_rrt.cpp", "ompl_sbl.cpp", "ompl_kpiece.cpp")]

LIBS = ("-lnlopt -lglpk -llpsolve55_pic -lcolamd -lClp -lCoinUtils -loctomap -loctomath "
        "-llapack -lblas -lgfortran -lm -ldl -lpthread").split()
FCL_LIBS = "-lfcl -lccd".split()
OMPL_LIBS = "-lompl -lboost_serialization -lboost_filesystem -lboost_system -lode".split()

VARIANTS = {
    "asan": ["-g", "-O1", "-fno-omit-frame-pointer", "-fsanitize=address"],
    "plain": ["-g", "-O2"],
    # the same code with every automatic variable zeroed / filled with a pattern first
    "zero": ["-O1", "-ffp-contract=off", "-ftrivial-auto-var-init=zero"],
    "pattern": ["-O1", "-ffp-contract=off", "-ftrivial-auto-var-init=pattern"],
    "tsan": ["-g", "-O1", "-fsanitize=thread"],
    "plainpic": ["-g", "-O1", "-fPIC"],
    "tsanpic": ["-g", "-O1", "-fsanitize=thread", "-fPIC"],
}

class BuildError(Exception):
    pass

def _run(cmd, cwd=None):
    p = subprocess.run(cmd, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode:
        raise BuildError("command failed: %s\n%s" % (" ".join(cmd), p.stdout[-4000:]))
    return p.stdout

def _sha(path):
    h = hashlib.sha1()
    try:
        with open(path, "rb") as f:
            h.update(f.read())
    except OSError:
        h.update(b"missing")
    return h.hexdigest()

def _deps(dfile):
    try:
        txt = open(dfile).read()
    except OSError:
        return None
    txt = txt.replace("\\\n", " ")
    body = txt.split(":", 1)[1] if ":" in txt else ""
    return [d for d in body.split() if d and not d.startswith("/usr/")]

def _key(cmd, deps):
    h = hashlib.sha1(" ".join(cmd).encode())
    for d in sorted(set(deps)):
        h.update(d.encode()); h.update(_sha(d).encode())
    return h.hexdigest()

def compile_one(cmd_prefix, src, obj):
    """cmd_prefix: list up to and not including -c; returns obj path."""
    dfile, kfile = obj + ".d", obj + ".k"
    cmd = cmd_prefix + ["-c", src, "-o", obj]
    deps = _deps(dfile)
    if os.path.exists(obj) and deps is not None and os.path.exists(kfile):
        if open(kfile).read() == _key(cmd, deps):
            return obj
    os.makedirs(os.path.dirname(obj), exist_ok=True)
    _run(cmd + ["-MD", "-MF", dfile], cwd=REPO)
    with open(kfile, "w") as f:
        f.write(_key(cmd, _deps(dfile) or []))
    return obj

def _inc(src):
    inc = ["-I" + os.path.join(BUILD, "gen"), "-I" + GEN, "-I" + os.path.join(REPO, "include"),
           "-I" + os.path.join(GEN, "include"), "-I" + os.path.join(REPO, "src/mac")]
    return inc

def _flags(src, variant):
    fl = list(VARIANTS[variant]) + ["-DHAVE_CONFIG_H", "-w"] + _inc(src)
    if src.endswith(".cpp"):
        cxx = ["g++"]
        if src in COLLISION or src in PLANNING or src.endswith("_fcl.cpp"):
            fl += ["-std=c++14", "-I/usr/include/eigen3"]
        if src in PLANNING or "ompl" in src:
            fl += ["-I/usr/include/ompl-1.5"]
        return cxx + fl
    return ["gcc"] + fl

def _gen_lex():
    g = os.path.join(BUILD, "gen")
    os.makedirs(g, exist_ok=True)
    out = []
    for n in ("wavefront", "mtl"):
        l = os.path.join(REPO, "src/wavefront/%s.l" % n)
        o = os.path.join(g, n + "_lex.c")
        k = _sha(l)
        if not (os.path.exists(o) and os.path.exists(o + ".k") and open(o + ".k").read() == k):
            txt = _run(["flex", "-t", l])
            open(o, "w").write(txt)
            open(o + ".k", "w").write(k)
        out.append(o)
    return out

def _gen_mac():
    """Fortran generated by maxima from src/mac/*.mac (committed fallback when unchanged)."""
    g = os.path.join(BUILD, "gen")
    os.makedirs(g, exist_ok=True)
    ref = {}
    reff = os.path.join(GEN, "mac.sha")
    if os.path.exists(reff):
        ref = dict(l.split() for l in open(reff) if l.strip())
    for out, mac in (("euler.f", "euler77.mac"), ("aa_ls_se3.f90", "ls.mac")):
        srcs = [os.path.join(REPO, "src/mac", m) for m in ("amino.mac", mac)]
        k = hashlib.sha1("".join(_sha(s) for s in srcs).encode()).hexdigest()
        o = os.path.join(g, out)
        if os.path.exists(o) and os.path.exists(o + ".k") and open(o + ".k").read() == k:
            continue
        if ref.get(out) == k or not shutil.which("maxima"):
            shutil.copy(os.path.join(GEN, out), o)
        else:
            t = os.path.join(g, "mac_" + mac); os.makedirs(t, exist_ok=True)
            for s in srcs: shutil.copy(s, t)
            _run(["maxima", "--very-quiet", "-b", mac], cwd=t)
            if not os.path.exists(os.path.join(t, out)):
                raise BuildError("maxima produced no " + out)
            shutil.copy(os.path.join(t, out), o)
        open(o + ".k", "w").write(k)

def _fortran(variant):
    """mem, la, tf modules + euler.f; plain gfortran -O2."""
    d = os.path.join(BUILD, "fortran"); os.makedirs(d, exist_ok=True)
    _gen_mac()
    srcs = [os.path.join(REPO, p) for p in ("src/mem_mod.F90", "src/mem_impl.F90", "src/la_mod.F90", "src/la_implf.F90",
            "src/tff.F90", "include/amino/def.h", "include/amino/undef.h", "include/amino/def.F90",
            "include/amino/undef.F90", "include/amino/mangle.h")] + [os.path.join(BUILD, "gen", f) for f in ("euler.f", "aa_ls_se3.f90")]
    k = hashlib.sha1("".join(_sha(s) for s in srcs).encode()).hexdigest()
    lib = [os.path.join(d, o) for o in ("mem.o", "la.o", "tf.o", "euler.o")]
    kf = os.path.join(d, "key")
    if all(os.path.exists(o) for o in lib) and os.path.exists(kf) and open(kf).read() == k:
        return lib
    inc = ["-I" + os.path.join(BUILD, "gen"), "-I" + os.path.join(REPO, "include"), "-I" + os.path.join(GEN, "include"), "-I" + os.path.join(REPO, "src"),
           "-I" + os.path.join(BUILD, "gen")]
    t = os.path.join(d, "src"); shutil.rmtree(t, ignore_errors=True); os.makedirs(t + "/mac")
    for f in os.listdir(os.path.join(REPO, "src")):
        if f.endswith(".F90"): shutil.copy(os.path.join(REPO, "src", f), t)
    for f in ("euler.f", "aa_ls_se3.f90"): shutil.copy(os.path.join(BUILD, "gen", f), t + "/mac")
    for s, o in (("mem_mod.F90", "mem"), ("la_mod.F90", "la"), ("tff.F90", "tf")):
        f90 = os.path.join(t, o + ".f90")
        _run(["gcc", "-E"] + inc + ["-x", "c", os.path.join(t, s), "-o", f90])
        _run(["gfortran", "-g", "-O2", "-w", "-ffree-line-length-none", "-fimplicit-none", "-J" + d, "-I" + d, "-c", f90, "-o", os.path.join(d, o + ".o")], cwd=t)
    _run(["gfortran", "-g", "-O2", "-w", "-c", os.path.join(t, "mac/euler.f"), "-o", lib[3]])
    open(kf, "w").write(k)
    return lib

def build_lib(variant="asan", parts=("core",)):
    """Compile the requested parts; return (objects list, link libs)."""
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, ".lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        d = os.path.join(BUILD, variant)
        srcs = []
        if "core" in parts: srcs += CORE
        if "collision" in parts: srcs += COLLISION
        if "planning" in parts: srcs += PLANNING
        jobs = [(_flags(s, variant), os.path.join(REPO, s), os.path.join(d, s + ".o")) for s in srcs]
        if "core" in parts:
            for o in _gen_lex():
                fl = _flags(o, variant) + ["-I" + os.path.join(REPO, "src/wavefront"), "-I" + os.path.join(REPO, "include")]
                jobs.append((fl, o, os.path.join(d, "gen", os.path.basename(o) + ".o")))
        with cf.ThreadPoolExecutor(max_workers=os.cpu_count() or 4) as ex:
            ff = ex.submit(_fortran, variant) if "core" in parts else None
            # longest jobs first: C++
            jobs.sort(key=lambda j: 0 if j[1].endswith(".cpp") else 1)
            futs = [ex.submit(compile_one, *j) for j in jobs]
            objs = [f.result() for f in futs]
            if ff: objs += ff.result()
        libs = []
        if "planning" in parts: libs += OMPL_LIBS
        if "collision" in parts: libs += FCL_LIBS
        libs += LIBS
        return objs, libs

def build_driver(name, variant="asan", parts=("core",), extra=(), defs=(), shared=False):
    """Build /verif/drivers/<name>.{c,cpp} against the library objects; shared: as a plug-in for the executable of build_host."""
    objs, libs = build_lib(variant, parts) if not shared else ([], [])
    if shared: defs = tuple(defs) + ("DRV_SHARED",); parts = ("core", "collision", "planning")
    src = os.path.join(VERIF, "drivers", name)
    d = os.path.join(BUILD, variant, "drv")
    os.makedirs(d, exist_ok=True)
    fl = _flags("x.cpp" if name.endswith(".cpp") else "x.c", variant)
    if "collision" in parts or "planning" in parts:
        if name.endswith(".cpp"): fl += ["-std=c++14", "-I/usr/include/eigen3", "-I/usr/include/ompl-1.5"]
    if name.endswith(".c"): fl += ["-Werror=implicit-function-declaration"]
    fl += ["-I" + os.path.join(VERIF, "drivers")] + ["-D" + x for x in defs]
    tag = name + ("-" + "-".join(defs) if defs else "")
    obj = compile_one(fl, src, os.path.join(d, tag + ".o"))
    exe = os.path.join(d, tag + (".so" if shared else ".exe"))
    key = hashlib.sha1("".join(_sha(o) for o in objs + [obj]).encode()).hexdigest()
    kf = exe + ".k"
    if not (os.path.exists(exe) and os.path.exists(kf) and open(kf).read() == key):
        _run(["g++"] + VARIANTS[variant] + (["-shared"] if shared else ["-rdynamic", "-Wl,--no-as-needed"] if name == "host.c" else []) + [obj] + objs + list(extra) + libs + ["-o", exe])
        open(kf, "w").write(key)
    return exe

if __name__ == "__main__":
    import time
    t = time.time()
    parts = tuple(sys.argv[2:]) or ("core",)
    o, l = build_lib(sys.argv[1] if len(sys.argv) > 1 else "asan", parts)
    print(len(o), "objects", round(time.time() - t, 1), "s")
