"""C11  Basis transformations, Lorentz boosts and rotations obey the tensor transformation law."""
import copy
import itertools

import sympy as sp

from vf import coords
from vf.core import Unit, thorough

LEVEL = "proof"
PREIMPORT = ["nrpy.reference_metric", "nrpy.helpers.jacobians", "nrpy.equations.general_relativity.LorentzBoost", "nrpy.equations.quaternion_rotations.tensor_rotation"]
ASSUMPTIONS = ["the Jacobians stored in the reference metric are those of the coordinate map (property C10, proved there)",
               "boost velocities with 0 < |v| < 1; rotation axes nonzero; radicals positive"]
R3, R4 = range(3), range(4)


def generic(name, rank, dim):
    def mk(pre):
        if len(pre) == rank:
            return sp.Symbol(name + "".join(map(str, pre)), real=True)
        return [mk(pre + [i]) for i in range(dim)]
    return mk([])


def u_jac(ctx, name):
    import nrpy.helpers.jacobians as J
    import nrpy.reference_metric as refmetric
    rfm = refmetric.reference_metric[name]
    A = [[sp.diff(rfm.xx_to_Cart[a], rfm.xx[i]) for i in R3] for a in R3]      # dX^a/dx^i
    h = rfm.scalefactor_orthog
    # inverse of A through the orthogonal frame (h proved to be the scale factors in C10)
    Bi = rfm.Jac_dUrfm_dDCartUD
    for i in R3:
        for j in R3:
            ctx.eq(f"callee contract: Jac_dUrfm_dDCart . dX/dx = 1 [{i}{j}]", sum(rfm.Jac_dUrfm_dDCartUD[i][a] * A[a][j] for a in R3), int(i == j), budget=20)
    A = rfm.Jac_dUCart_dDrfmUD
    one4 = lambda M: [[(sp.S.One if (m == 0 and n == 0) else sp.S.Zero) if m * n == 0 else M[m - 1][n - 1] for n in R4] for m in R4]
    v, T, T4 = generic("v", 1, 3), generic("T", 2, 3), generic("F", 2, 4)
    T4c = copy.deepcopy(T4)
    spec = {
        "basis_transform_vectorU_from_rfmbasis_to_Cartesian": (v, lambda i: sum(A[i][l] * v[l] for l in R3)),
        "basis_transform_vectorD_from_rfmbasis_to_Cartesian": (v, lambda i: sum(Bi[l][i] * v[l] for l in R3)),
        "basis_transform_vectorU_from_Cartesian_to_rfmbasis": (v, lambda i: sum(Bi[i][l] * v[l] for l in R3)),
        "basis_transform_vectorD_from_Cartesian_to_rfmbasis": (v, lambda i: sum(A[l][i] * v[l] for l in R3)),
        "basis_transform_tensorDD_from_rfmbasis_to_Cartesian": (T, lambda i, j: sum(Bi[l][i] * Bi[m][j] * T[l][m] for l in R3 for m in R3)),
        "basis_transform_tensorDD_from_Cartesian_to_rfmbasis": (T, lambda i, j: sum(A[l][i] * A[m][j] * T[l][m] for l in R3 for m in R3)),
    }
    A4, B4 = one4(A), one4(Bi)
    spec["basis_transform_4tensorUU_from_time_indep_rfmbasis_to_Cartesian"] = (T4, lambda i, j: sum(A4[i][l] * A4[j][m] * T4c[l][m] for l in R4 for m in R4))
    spec["basis_transform_4tensorUU_from_Cartesian_to_time_indep_rfmbasis"] = (T4, lambda i, j: sum(B4[i][l] * B4[j][m] * T4c[l][m] for l in R4 for m in R4))
    for fn, (arg, want) in spec.items():
        ctx.under("nrpy.helpers.jacobians." + fn)
        src = copy.deepcopy(arg)
        out = ctx.call(fn, getattr(J, fn), name, src)
        ctx.check(f"{fn} leaves its argument unchanged", src == arg, "contract-exec (exact)", detail=str(src)[:300])
        rank = 2 if isinstance(arg[0], list) else 1
        dim = len(arg)
        ctx.check(f"{fn} shape", len(out) == dim and (rank == 1 or all(len(o) == dim for o in out)), "contract-exec (exact)")
        for idx in itertools.product(range(dim), repeat=rank):
            o = out[idx[0]] if rank == 1 else out[idx[0]][idx[1]]
            ctx.eq(f"{fn}{list(idx)}", o, want(*idx), budget=25)
    # the transform reads the system it is given, whatever was requested before
    other = "Spherical" if name != "Spherical" else "Cylindrical"
    ctx.call("other system", J.basis_transform_vectorU_from_rfmbasis_to_Cartesian, other, v)
    again = ctx.call("again", J.basis_transform_vectorU_from_rfmbasis_to_Cartesian, name, v)
    for i in R3:
        ctx.eq(f"repeat after another system [{i}]", again[i], sum(A[i][l] * v[l] for l in R3), budget=20)


def boost_matrix(v):
    v2 = sum(c * c for c in v)
    g = 1 / sp.sqrt(1 - v2)
    L = [[None] * 4 for _ in R4]
    L[0][0] = g
    for i in R3:
        L[0][i + 1] = L[i + 1][0] = -g * v[i]
        for j in R3:
            L[i + 1][j + 1] = (1 if i == j else 0) + (g - 1) * v[i] * v[j] / v2
    return L


def u_boost_matrix(ctx, kind):
    from nrpy.equations.general_relativity.LorentzBoost import LorentzBoost
    ctx.under("nrpy.equations.general_relativity.LorentzBoost.LorentzBoost.__init__", "LorentzBoost._compute_LorentzMatrix")
    a, b, c = sp.symbols("vx vy vz", real=True)
    v = {"generic": [a, b, c], "x": [a, sp.S.Zero, sp.S.Zero], "y": [sp.S.Zero, b, sp.S.Zero], "z": [sp.S.Zero, sp.S.Zero, c], "yz": [sp.S.Zero, b, c]}[kind]
    samp = lambda syms, rng: {s: __import__("mpmath").mpf(rng.uniform(-0.55, 0.55)) for s in syms}
    lb = ctx.call("LorentzBoost", LorentzBoost, list(v))
    L = boost_matrix(v)
    Li = boost_matrix([-x for x in v])
    eta = [-1, 1, 1, 1]
    for m in R4:
        for n in R4:
            ctx.eq(f"LorentzMatrix[{m}][{n}]", lb.LorentzMatrix[m][n], L[m][n], sampler=samp)
            ctx.eq(f"InverseLorentzMatrix[{m}][{n}]", lb.InverseLorentzMatrix[m][n], Li[m][n], sampler=samp)
            ctx.eq(f"inverse . boost = 1 [{m}{n}]", sum(lb.InverseLorentzMatrix[m][k] * lb.LorentzMatrix[k][n] for k in R4), int(m == n), sampler=samp)
            ctx.eq(f"boost preserves the Minkowski metric [{m}{n}]", sum(eta[k] * lb.LorentzMatrix[k][m] * lb.LorentzMatrix[k][n] for k in R4), eta[m] if m == n else 0, sampler=samp)
    g = 1 / sp.sqrt(1 - sum(x * x for x in v))
    rest = ctx.call("boost_vectorU", lb.boost_vectorU, [g] + [g * x for x in v])
    for m in R4:
        ctx.eq(f"an observer moving with v is at rest after boost_vectorU [{m}]", rest[m], int(m == 0), sampler=samp)


def u_boost_tensors(ctx, rank, first=None):
    from nrpy.equations.general_relativity.LorentzBoost import LorentzBoost
    import mpmath
    v = list(sp.symbols("vx vy vz", real=True))
    lb = ctx.call("LorentzBoost", LorentzBoost, v)
    samp = lambda syms, rng: {s: mpmath.mpf(rng.uniform(-0.5, 0.5)) for s in syms}
    L, Li = boost_matrix(v), boost_matrix([-x for x in v])
    meths = {1: [("boost_vectorU", L, False), ("inverse_boost_vectorU", Li, False), ("boost_vectorD", Li, True)], 2: [("boost_tensorDD", Li, True)],
             3: [("boost_tensorDDD", Li, True)], 4: [("boost_tensorDDDD", Li, True)]}[rank]
    SL, SI = generic("L", 2, 4), generic("Q", 2, 4)
    for meth, M, low in meths:
        ctx.under("nrpy.equations.general_relativity.LorentzBoost.LorentzBoost." + meth)
        # method against the contracts of the matrices (opaque symbols): any attribute values
        lb2 = LorentzBoost(v)
        lb2.LorentzMatrix, lb2.InverseLorentzMatrix = SL, SI
        T = generic("t", rank, 4)
        src = copy.deepcopy(T)
        out = ctx.call(meth, getattr(lb2, meth), src)
        ctx.check(f"{meth} leaves its argument unchanged", src == T, "contract-exec (exact)")
        S = SL if meth == "boost_vectorU" else SI
        get = lambda X, ix: X if not ix else get(X[ix[0]], ix[1:])
        opaque = any(s.name[0] in "LQ" for s in sp.sympify(get(out, [0] * rank)).free_symbols)
        if opaque:
            for mu in itertools.product(R4, repeat=rank):
                if first is not None and mu[0] != first:
                    continue
                terms = []
                for nu in itertools.product(R4, repeat=rank):
                    t = get(T, list(nu))
                    for m, n in zip(mu, nu):
                        t = t * (S[n][m] if low else S[m][n])
                    terms.append(t)
                ctx.eq(f"{meth}{list(mu)} against the matrix contract", get(out, list(mu)), sp.Add(*terms))
        else:  # the method does not read the stored matrices: compare with the explicit boost at sample tensors
            import random
            rng = random.Random(1)
            Tn = sp.S.Zero
            vals = generic("t", rank, 4)
            num = lambda X: [num(x) for x in X] if isinstance(X, list) else sp.Integer(rng.randint(-9, 9))
            Tn = num(vals)
            out = ctx.call(meth, getattr(lb, meth), copy.deepcopy(Tn))
            for mu in itertools.product(R4, repeat=rank):
                want = sp.Add(*[get(Tn, list(nu)) * sp.Mul(*[(M[n][m] if low else M[m][n]) for m, n in zip(mu, nu)]) for nu in itertools.product(R4, repeat=rank)])
                ctx.eq(f"{meth}{list(mu)}", get(out, list(mu)), want, sampler=samp, budget=5)


def u_rotate(ctx, kind):
    from nrpy.equations.quaternion_rotations.tensor_rotation import rotate
    ctx.under("nrpy.equations.quaternion_rotations.tensor_rotation.rotate")
    th = sp.Symbol("th", real=True)
    a = list(sp.symbols("ax ay az", real=True)) if kind == "generic" else [sp.S(int(k)) for k in kind]
    nrm = sp.sqrt(sum(x * x for x in a))
    n = [x / nrm for x in a]
    eps = lambda i, j, k: sp.LeviCivita(i, j, k)
    Rm = [[sp.cos(th) * int(i == j) + (1 - sp.cos(th)) * n[i] * n[j] - sp.sin(th) * sum(eps(i, j, k) * n[k] for k in R3) for j in R3] for i in R3]
    v, T = generic("v", 1, 3), generic("T", 2, 3)
    src = copy.deepcopy(v)
    out = ctx.call("rotate vector", rotate, src, list(a), th)
    ctx.check("vector argument unchanged", src == v, "contract-exec (exact)")
    for i in R3:
        ctx.eq(f"vector[{i}] = Rodrigues", out[i], sum(Rm[i][j] * v[j] for j in R3), budget=30)
    src = copy.deepcopy(T)
    out = ctx.call("rotate tensor", rotate, src, list(a), th)
    ctx.check("tensor argument unchanged", src == T, "contract-exec (exact)")
    for i in R3:
        for j in R3:
            ctx.eq(f"tensor[{i}][{j}] = R T R^t", out[i][j], sum(Rm[i][k] * Rm[j][l] * T[k][l] for k in R3 for l in R3), budget=30)
    if kind == "100":
        ctx.raises("2x2 matrix rejected", lambda: rotate([[1, 0], [0, 1]], [1, 0, 0], th), ValueError)
        ctx.raises("4-vector rejected", lambda: rotate([1, 0, 0, 1], [1, 0, 0], th), ValueError)


def units():
    us = [Unit(f"jacobians[{c}]", u_jac, (c,), weight=5) for c in coords.ALL + coords.EXTRA]
    us += [Unit(f"boost matrix[{k}]", u_boost_matrix, (k,)) for k in ("generic", "x", "y", "z", "yz")]
    us += [Unit(f"boost rank {r}", u_boost_tensors, (r,), weight=r * 3) for r in (1, 2, 3)]
    us += [Unit("boost rank 4", u_boost_tensors, (4,), weight=30)]
    us += [Unit(f"rotate[{k}]", u_rotate, (k,)) for k in ("generic", "100", "010", "001", "120", "122")]
    return us
