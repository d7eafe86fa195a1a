import vbuild
from L02 import S, ints
ORD = [1, 2, 4, 4, 4, 4, 2, 1]
def step(rng, me):
    n = rng.randint(1, 4); D = rng.choice([ORD[me], ORD[me], rng.randint(0, ORD[me]), ORD[me] + (1 if 3 <= me <= 6 else 0)]); 
    return S("step", me, n, D, rng.randint(-4, 4), rng.choice([1, 2, 3, 4, -1, -2]), ints(rng, D + 1, 2 if D <= 3 else 1))
def sol(rng, me, path=False):
    n = rng.randint(1, 4); D = rng.choice([ORD[me], ORD[me], rng.randint(0, ORD[me])]); stop = rng.randint(1, 4); inc, dec, tol = 200, 50, 8; mv = 0; dt = 1
    if me >= 3 and rng.random() < .4:   # degree above the order: the step size has to adapt; tight tolerance
        D = ORD[me] + rng.randint(1, 2); tol = 10; stop = rng.randint(1, 3); inc = 100; dt = rng.choice([1, 2, 4]); n = rng.randint(1, 2)
        dec = rng.choice([50, 25])
    else:
        if rng.random() < .3 and not path: n, mv = 1, rng.choice([-1, 1, 2])
        dt = rng.choice([1, 2]) if me <= 2 else 1
        if me >= 3 and stop > 3: stop = 3
    return S("path" if path else "sol", me, n, D, rng.randint(-4, 0), dt, stop, rng.choice([1, 1, 2, -1, -5]), tol, dec, inc, mv, ints(rng, D + 1, 2 if D <= 3 else 1)) + (" %d" % rng.randrange(2) if path else "")
def lsim(rng): m, n = rng.randint(1, 3), rng.randint(1, 3); return S("lsim", m, n, ints(rng, m*m + m*n + m + n, 3))
def grad(rng): n = rng.randint(1, 4); return S("grad", n, rng.choice([1, 2]), rng.choice([1, 3]), ints(rng, n + n*n + n, 3))
def jac(rng): n, m = rng.randint(1, 3), rng.randint(1, 4); return S("jac", n, m, rng.choice([1, 2]), m + rng.choice([0, 0, 2]), ints(rng, m*(n + n*n) + n, 3))
def arm(rng): return S("arm", rng.randint(1, 5), rng.randint(1, 5), rng.randint(-6, 6), rng.choice([0, rng.randint(-6, 6)]))
def run(c):
    exe = vbuild.build_driver("ode.c")
    n = c.pick(120, 1500); r = c.rng
    sc = [[step(r, me) for _ in range(3)] for me in range(8) for _ in range(n)]
    c.conform("ODE", exe, sc, "ode-steps", timeout=40)
    sc = [[sol(r, me, p) for _ in range(2)] for me in range(7) for p in (False, False, True) for _ in range(n)]
    c.conform("ODE", exe, sc, "ode-solutions", timeout=40)
    sc = [[f(r) for _ in range(3)] for f in (lsim, grad, jac, arm) for _ in range(n*2)]
    c.conform("ODE", exe, sc, "ode-models", timeout=40)
