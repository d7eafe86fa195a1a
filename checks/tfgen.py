"""Generators of rigid-motion scripts (A01..A03)."""
Q90 = [(0,0,0,1), (1,0,0,1), (0,1,0,1), (0,0,1,1), (-1,0,0,1), (0,-1,0,1), (0,0,-1,1), (1,0,0,0), (0,1,0,0), (0,0,1,0), (1,1,1,1), (1,-1,1,1), (-1,1,1,1), (-1,-1,-1,1), (1,1,0,0), (0,1,-1,0), (-1,0,1,0), (0,0,0,-1), (1,1,1,-1), (0,0,1,-1)]
QGEN = [(1,0,0,2), (0,1,0,3), (0,0,-2,1), (1,2,0,0), (1,2,2,4), (1,-1,2,1), (2,1,0,1), (1,1,2,3), (-3,1,1,1), (0,3,1,0), (1,2,-2,0), (5,1,0,0), (1,0,0,7), (0,-5,0,1), (3,0,4,-2), (1,2,3,-1)]
# integer norm
QINT = [(0,0,0,1), (1,0,0,0), (1,1,1,1), (1,-1,-1,1), (2,2,1,0), (1,2,0,2), (-2,0,1,2), (0,3,4,0), (4,0,0,3), (0,-3,0,4), (1,1,1,-1), (2,4,5,-2), (1,3,1,5), (-1,3,5,1)]
# tiny and nearly half turns
QEDGE = [(1,0,0,500), (0,-1,0,400), (0,0,1,3000), (1,1,-1,600), (2,1,2,1000), (500,0,0,1), (0,-400,0,1), (0,0,3000,1), (600,0,0,-1), (300,400,0,1), (300,0,-400,1), (0,-300,400,-1), (300,400,1,0), (1,0,0,12000), (0,12000,0,1), (1,0,0,-500), (0,2,1,-900),
         (1,2,0,40), (0,1,1,90), (-1,0,0,150), (3,0,0,5000), (150,0,0,1), (0,1,90,1), (1,200,1,1), (1,200,1,-1), (1,0,0,14000), (14000,0,0,1)]
VS = [(0,0,0,1), (1,0,0,1), (0,-2,0,1), (0,0,3,1), (1,2,3,1), (-4,1,2,1), (3,-1,2,2), (10,0,-7,1), (1,1,-1,4)]
REPS = ["quat", "rotmat", "axang", "rotvec", "qutr", "tfmat", "duqu"]
CONV = {"quat": {"quat2rotmat": "rotmat", "quat2axang": "axang", "quat2rotvec": "rotvec", "qminimize2": "quat", "qminimize": "quat"},
        "rotmat": {"rotmat2quat": "quat", "rotmat2axang": "axang", "rotmat2rotvec": "rotvec", "rotmat_lnv": "rotvec"},
        "axang": {"axang2quat": "quat", "axang2rotvec": "rotvec", "axang2rotmat": "rotmat", "rotmat_exp_aa": "rotmat", "axang2quat2": "quat", "axang2rotmat2": "rotmat"},
        "rotvec": {"rotvec2quat": "quat", "rotvec2axang": "axang", "rotvec2rotmat": "rotmat", "rotmat_expv": "rotmat"},
        "qutr": {"qutr2duqu": "duqu", "qutr2tfmat": "tfmat", "qv2duqu": "duqu", "qv2tfmat": "tfmat"},
        "tfmat": {"tfmat2qutr": "qutr", "tfmat2duqu": "duqu", "tfmat2qv": "qutr"},
        "duqu": {"duqu2qutr": "qutr", "duqu2tfmat": "tfmat", "duqu2qv": "qutr", "duqu_trans": "qutr", "duqu_minimize": "duqu"}}
NORM = {"quat": ["qnormalize 3", "qnormalize2 5"], "duqu": ["duqu_normalize 3"], "axang": ["axang_normalize 2 0", "axang_normalize 1 1", "axang_make 3", "axang_normalize 4 -1"], "rotmat": ["rotmat_normalize 1"], "tfmat": ["tfmat_normalize 1"]}
MUL = {"quat": "qmul qmulnorm qmatrix_l qmatrix_r qmat_l qmat_r", "rotmat": "rotmat_mul 9mul v9mul", "qutr": "qutr_mul qutr_mulnorm qv_chain qv_chainnorm", "tfmat": "tfmat_mul 12chain tfmat2_mul 93chain v12chain", "duqu": "duqu_mul duqu_matrix_l duqu_matrix_r duqu_mat_l duqu_mat_r"}
IMUL = {"quat": "qcmul", "qutr": "qutr_cmul", "duqu": "duqu_cmul", "tfmat": "12rel 93rel"}
MULI = {"quat": "qmulc qrel", "qutr": "qutr_mulc", "duqu": "duqu_mulc", "rotmat": "9rel"}
INV = {"quat": "qconj qconj1 qinv", "rotmat": "rotmat_inv1 rotmat_inv2", "tfmat": "tfmat_inv1 tfmat_inv2 12inv 93inv", "qutr": "qutr_conj qv_conj", "duqu": "duqu_conj duqu_conj1"}
PT = {"tfmat": "12 tfmat_tf 93 tfmat2_tf", "rotmat": "9 rotmat_rot 9rot", "quat": "qrot qrot1", "axang": "axang_rot", "qutr": "qutr_tf tf_qv", "duqu": "tf_duqu duqu_tf"}
def f(t): return " ".join(str(x) for x in t)
class G:
    pert = 0
    def __init__(s, rng): s.rng, s.reps, s.out = rng, [], []
    def mk(s, rep, q, v=None, pert=None):
        if pert is None and s.rng.random() < s.pert: pert = "%d %d" % (s.rng.choice([8, 9, 10, 11, 12, 14, 16]), s.rng.randrange(81))
        s.out.append("mk %s %s %s %s" % (rep, f(q), f(v or s.rng.choice(VS)), pert or "")); s.reps.append(rep); return len(s.reps)
    def do(s, cmd, rep): s.out.append(cmd); s.reps.append(rep); return len(s.reps)
    def conv(s, k):
        r = s.rng; rep = s.reps[k-1]; c = sorted(CONV[rep].items()); api, to = r.choice(c); return s.do("conv %s %d" % (api, k), to)
    def norm(s, k):
        rep = s.reps[k-1]
        if rep in NORM:
            a = s.rng.choice(NORM[rep]).split(); return s.do("conv %s %d %s" % (a[0], k, f(a[1:])), rep)
        return k
    def inv(s, k):
        rep = s.reps[k-1]; return s.do("inv %s %d" % (s.rng.choice(INV[rep].split()), k), rep) if rep in INV else k
    def bin(s, a, b):
        r = s.rng; rep = s.reps[a-1]; op, T = r.choice([("mul", MUL), ("mul", MUL), ("imul", IMUL), ("muli", MULI)])
        if rep not in T: op, T = "mul", MUL
        if rep not in T: return a
        return s.do("%s %s %d %d %d" % (op, r.choice(T[rep].split()), a, b, r.randrange(2)), rep)
    def pt(s, k):
        rep = s.reps[k-1]
        if rep in PT: s.out.append("pt %s %d %s" % (s.rng.choice(PT[rep].split()), k, f(s.rng.choice(VS))))
