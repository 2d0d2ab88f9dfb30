"""C19  Exact solutions, initial data and source terms satisfy the equations they are named for, and the generated kernels evaluate those equations."""
import contextlib
import io
import itertools
import os
import random
import shutil
import tempfile

import mpmath
import numpy as np
import sympy as sp

from vf import bhah, coords, jets
from vf.core import Unit, thorough
from vf.jets import J
from props.c12 import R, X, R3, pre_map, setcf

LEVEL = "other"
EXPLANATION = ("Expression-level postconditions (wave equation, Laplacian of every coordinate system, Bowen-York and puncture data, stationarity of black-hole data, TOV) are discharged by the algebraic back end for all parameters; "
               "the vacuum constraints are evaluated with Taylor arithmetic at random points (bounded), and the generated C kernels are compiled and compared point by point with the same contracts on polynomial data, for which the stencils are exact (bounded).")
PREIMPORT = ["nrpy.reference_metric", "nrpy.equations.wave_equation.WaveEquationCurvilinear_RHSs", "nrpy.equations.nrpyelliptic.ConformallyFlat_RHSs", "nrpy.equations.general_relativity.InitialData_Spherical",
             "nrpy.infrastructures.BHaH.nrpyelliptic.conformally_flat_C_codegen_library", "nrpy.infrastructures.BHaH.wave_equation.wave_equation_C_codegen_library"]
ASSUMPTIONS = ["spherical data: the symbols xx0, xx1 of the Spherical reference metric are r, th", "vectorised kernels: Nxx0 a multiple of the vector width, reference-metric precomputation on",
               "points away from punctures, coordinate singularities and (UIUC, trumpet) r = 0", "parameters in their physical range (masses and radii positive, |a| < M)",
               "cell-centred grids of the default size; polynomial test fields, on which the centred stencils are exact (C03)"]
BOUNDS = ["C kernels: one grid, field and option set per coordinate system and program", "constraints: three random points per data set and parameter choice"]
TRUSTED = ["gcc and its sanitizers for the native comparisons"]
EQW = "nrpy.equations.wave_equation."
EQE = "nrpy.equations.nrpyelliptic."
EQG = "nrpy.equations.general_relativity."
S = lambda n: sp.Symbol(n, real=True)


# ------------------------------------------------------------------ expressions
def u_wave_solution(ctx, kind):
    import nrpy.grid as gri
    import nrpy.params as par
    from nrpy.equations.wave_equation.WaveEquation_Solutions_InitialData import WaveEquation_solution_Cartesian
    ctx.under(EQW + "WaveEquation_Solutions_InitialData.WaveEquation_solution_Cartesian.__init__", EQW + "WaveEquation_Solutions_InitialData." + kind)
    bhah.reset()
    o = ctx.call(kind, WaveEquation_solution_Cartesian, kind, 0.5, -2.0, 3.25, 1.75)
    u, v = R(o.uu_exactsoln), R(o.vv_exactsoln)
    t, c = S("time"), S("wavespeed")
    xs = [S(f"xCart{i}") for i in R3]
    ctx.check("the solution depends on time, position and wave speed", {t, c, *xs} <= u.free_symbols, "symbolic", cex=str(u))
    ctx.eq("vv is the time derivative of uu", v, u.diff(t))
    ctx.eq("uu solves the wave equation", v.diff(t), c ** 2 * sum(u.diff(x, 2) for x in xs))
    reg = {n: gri.glb_gridfcs_dict[n] for n in ("uu", "vv")}
    ctx.check("uu, vv are registered with their asymptotic values", reg["uu"].f_infinity == 2.0 and reg["vv"].f_infinity == 0.0 and reg["uu"].group == reg["vv"].group == "EVOL", "symbolic", cex=str({n: vars(g) for n, g in reg.items()}))
    want = {"kk0": 0.5, "kk1": -2.0, "kk2": 3.25} if kind == "PlaneWave" else {"sigma": 1.75}
    got = {n: par.glb_code_params_dict[n].defaultvalue for n in want if n in par.glb_code_params_dict}
    ctx.check("the default parameters are those given", got == want, "symbolic", cex=f"{got} {want}")
    if kind == "PlaneWave":
        k = [S(f"kk{i}") for i in R3]
        n2 = sum(q ** 2 for q in k)
        f = S("f")
        # phase velocity along k, and only along k
        for i in R3:
            ctx.eq(f"plane wave: gradient along k [{i}]", u.diff(xs[i]) * c * sp.sqrt(n2), -v * k[i])
        ctx.check("amplitude one about two", sp.simplify((u - 2) ** 2 + (v / c) ** 2 - 1) == 0, "sympy", cex=str(u))
    else:
        # value at the origin is the limit of the solution
        e = sp.Symbol("e", positive=True)
        s = S("sigma")
        rng = random.Random(7)
        bad = None
        for _ in range(4):
            P = {t: mpmath.mpf(rng.randint(100, 3000)) / 1000, c: mpmath.mpf(rng.randint(500, 2000)) / 1000, s: mpmath.mpf(rng.randint(700, 3000)) / 1000}
            with mpmath.workdps(60):
                d = [mpmath.mpf(rng.randint(-1000, 1000)) for _ in R3]
                q = mpmath.sqrt(sum(x * x for x in d))
                for a, b, n in ((o.uu_exactsoln, o.uu_exactsoln_r0, "uu"), (o.vv_exactsoln, o.vv_exactsoln_r0, "vv")):
                    z = [0] * 3
                    at = lambda ex, pt: mpmath.mpmathify(sp.lambdify([t, c, s, *xs], R(ex), "mpmath")(P[t], P[c], P[s], *pt))
                    near, lim = at(a, [x / q * mpmath.mpf("1e-12") for x in d]), at(b, [mpmath.mpf(0)] * 3)
                    far = at(b, [x / q * mpmath.mpf("1e-12") for x in d])
                    if abs(near - lim) > mpmath.mpf("1e-18") * (1 + abs(lim)) or abs(far - lim) > mpmath.mpf("1e-9") * (1 + abs(lim)):
                        bad = bad or f"{n} near the origin {mpmath.nstr(near, 12)}, at the origin {mpmath.nstr(lim, 12)} for {P}"
        ctx.check("the expressions at the origin are the limits of the solution", bad is None, "mpmath-limit", cex=bad, bounded=True)
        ctx.eq("spherical symmetry", xs[0] * u.diff(xs[1]), xs[1] * u.diff(xs[0]))
        ctx.eq("spherical symmetry (z)", xs[0] * u.diff(xs[2]), xs[2] * u.diff(xs[0]))
    ctx.raises("unknown wave types are rejected", lambda: WaveEquation_solution_Cartesian("Dipole"), ValueError)


def quad():
    """generic quadratic function of Cartesian position"""
    b = sp.symbols("b0:3", real=True)
    c = {(i, j): S(f"c{i}{j}") for i in R3 for j in range(i, 3)}
    f = lambda P: S("a0") + sum(b[i] * P[i] for i in R3) + sum(c[i, j] * P[i] * P[j] for i, j in c)
    return f, 2 * sum(c[i, i] for i in R3)


def lap_sub(name, pre, e, extra=()):
    """expression of the fields' symbols for uu = quadratic in Cartesian position"""
    import nrpy.reference_metric as refmetric
    rfm = refmetric.reference_metric[name]
    xc = [R(q) for q in rfm.xx_to_Cart]
    f, lap = quad()
    u = f(xc)
    rep = {S(f"uu_dD{i}"): u.diff(X[i]) for i in R3}
    rep.update({S(f"uu_dDD{i}{j}"): u.diff(X[i], X[j]) for i in R3 for j in R3})
    if pre:
        e = R(R(e).xreplace(pre_map(name)))
    return R(e).xreplace(rep), lap


def u_laplacian(ctx, name, pre):
    import nrpy.grid as gri
    from nrpy.equations.nrpyelliptic.ConformallyFlat_RHSs import HyperbolicRelaxationCurvilinearRHSs
    from nrpy.equations.wave_equation.WaveEquationCurvilinear_RHSs import WaveEquationCurvilinear_RHSs
    ctx.under(EQW + "WaveEquationCurvilinear_RHSs.WaveEquationCurvilinear_RHSs.__init__", EQE + "ConformallyFlat_RHSs.HyperbolicRelaxationCurvilinearRHSs.__init__")
    bhah.reset()
    E = dict(budget=60 if thorough() else 6)
    w = ctx.call("wave RHSs", WaveEquationCurvilinear_RHSs, name, pre)
    ctx.eq("uu_rhs = vv", R(w.uu_rhs), S("vv"))
    e, lap = lap_sub(name, pre, w.vv_rhs)
    ctx.eq("vv_rhs = wavespeed^2 * Laplacian of uu", e, S("wavespeed") ** 2 * lap, **E)
    g = gri.glb_gridfcs_dict
    ctx.check("wave fields registered with asymptotic values 2 and 0", g["uu"].f_infinity == 2.0 and g["vv"].f_infinity == 0.0, "symbolic", cex=str(vars(g["uu"])))
    bhah.reset()
    h = ctx.call("relaxation RHSs", HyperbolicRelaxationCurvilinearRHSs, name, pre)
    uu, vv, eta, psi, A2, c = map(S, ("uu", "vv", "eta_damping", "psi_background", "ADD_times_AUU", "variable_wavespeed"))
    ctx.eq("relaxation uu_rhs = vv - eta uu", R(h.uu_rhs), vv - eta * uu)
    e, lap = lap_sub(name, pre, h.residual)
    H = lap + A2 / 8 * (psi + uu) ** -7
    ctx.eq("residual is the conformally flat Hamiltonian constraint", e, H, **E)
    e, lap = lap_sub(name, pre, h.vv_rhs)
    ctx.eq("relaxation vv_rhs = wavespeed^2 * residual", e, c ** 2 * H, **E)
    d = h.NRPyElliptic_RHSs_varname_to_expr_dict
    ctx.check("right-hand sides listed under their own names", dict(d) == {"uu_rhs": h.uu_rhs, "vv_rhs": h.vv_rhs}, "symbolic", cex=str(list(d)))
    g = gri.glb_gridfcs_dict
    ctx.check("relaxation fields: groups and asymptotic values", g["uu"].f_infinity == 0.0 and g["vv"].f_infinity == 0.0 and g["uu"].group == "EVOL" and g["psi_background"].group == "AUXEVOL" and g["ADD_times_AUU"].group == "AUXEVOL"
              and g["variable_wavespeed"].group == "AUXEVOL" and g["residual_H"].group == "AUX", "symbolic", cex=str({n: x.group for n, x in g.items()}))


def u_wave_cart(ctx):
    from nrpy.equations.wave_equation.WaveEquation_RHSs import WaveEquation_RHSs
    ctx.under(EQW + "WaveEquation_RHSs.WaveEquation_RHSs.__init__")
    for again in (False, True):
        if not again:
            bhah.reset()
        w = ctx.call("Cartesian wave RHSs", WaveEquation_RHSs)
        ctx.eq(f"uu_rhs = vv {again}", R(w.uu_rhs), S("vv"))
        ctx.eq(f"vv_rhs = wavespeed^2 * Laplacian {again}", R(w.vv_rhs), S("wavespeed") ** 2 * sum(S(f"uu_dDD{i}{i}") for i in R3))


def u_tov(ctx):
    from nrpy.equations.tov.TOV_equations import TOV_Equations
    ctx.under("nrpy.equations.tov.TOV_equations.TOV_Equations.__init__")
    T = ctx.call("TOV", TOV_Equations)
    r, ri, rho, P, M, pi = map(R, (T.r_Schw, T.r_iso, T.rho_energy, T.P, T.M, T.M_PI))
    # static fluid sphere, ds^2 = -e^nu dt^2 + dr^2/(1-2M/r) + r^2 dOmega^2
    D = r * (r - 2 * M)
    ctx.eq("dM/dr: energy in a shell", R(T.dM_dr), 4 * pi * r ** 2 * rho)
    ctx.eq("dnu/dr: G_rr = 8 pi T_rr", R(T.dnu_dr) * D, 2 * (M + 4 * pi * r ** 3 * P))
    ctx.eq("dP/dr: momentum conservation", R(T.dP_dr), -(rho + P) / 2 * R(T.dnu_dr))
    ctx.eq("dr_iso/dr: conformally flat radial coordinate", R(T.dr_iso_dr) ** 2 * (1 - 2 * M / r) * r ** 2, ri ** 2)
    ctx.check("r_iso increases with r", R(T.dr_iso_dr).subs({r: 3, M: sp.Rational(1, 2), ri: 2}) > 0, "symbolic", cex=str(T.dr_iso_dr))


def u_source(ctx):
    import nrpy.equations.nrpyelliptic.ConformallyFlat_SourceTerms as st
    for f in ("psi_background_cartesian", "VU_cart_two_punctures", "ADD_conf_cartesian", "ADD_times_AUU_conf_cartesian"):
        ctx.under(EQE + "ConformallyFlat_SourceTerms." + f)
    x = sp.symbols("x y z", real=True)
    o = [sp.symbols(f"{n}0:3", real=True) for n in ("p", "q")]
    rel = [[x[i] - o[k][i] for i in R3] for k in range(2)]
    m = sp.symbols("m0 m1", real=True)
    psi = ctx.call("psi", st.psi_background_cartesian, m[0], rel[0], m[1], rel[1])
    ctx.eq("psi_background is harmonic", sum(psi.diff(q, 2) for q in x), sp.Integer(0))
    r = [sp.sqrt(sum(q ** 2 for q in v)) for v in rel]
    ctx.eq("psi_background: Brill-Lindquist form", psi, 1 + m[0] / (2 * r[0]) + m[1] / (2 * r[1]))
    P = [sp.symbols(f"{n}0:3", real=True) for n in ("P", "Q")]
    Sp = [sp.symbols(f"{n}0:3", real=True) for n in ("S", "T")]
    rel = [list(sp.symbols(f"{n}0:3", real=True)) for n in ("x", "w")]
    r = [sp.sqrt(sum(q ** 2 for q in v)) for v in rel]
    V = ctx.call("V", st.VU_cart_two_punctures, rel[0], list(P[0]), list(Sp[0]), rel[1], list(P[1]), list(Sp[1]))
    # superposition: each puncture's part is a function of the position relative to it
    zero = [{q: sp.Integer(0) for q in P[k] + Sp[k]} for k in range(2)]
    part = [[v.xreplace(zero[1 - k]) for v in V] for k in range(2)]
    for i in R3:
        ctx.eq(f"V is the sum of the punctures' vectors [{i}]", V[i], part[0][i] + part[1][i])
        ctx.check(f"each puncture's vector depends on its own position only [{i}]", not (part[0][i].free_symbols & set(rel[1])) and not (part[1][i].free_symbols & set(rel[0])), "symbolic", cex=str(part[0][i]))
    eps = lambda i, j, k: sp.LeviCivita(i, j, k)
    killing = lambda W, x: [[W[i].diff(x[j]) + W[j].diff(x[i]) - (sp.Rational(2, 3) * sum(W[k].diff(x[k]) for k in R3) if i == j else 0) for j in R3] for i in R3]
    for k in range(2):
        L = killing(part[k], rel[k])
        n = [q / r[k] for q in rel[k]]
        Pn = sum(P[k][i] * n[i] for i in R3)
        cr = lambda i: sum(eps(i, a, b) * Sp[k][a] * n[b] for a in R3 for b in R3)
        for i in R3:
            for j in range(i, 3):
                BY = 3 / (2 * r[k] ** 2) * (n[i] * P[k][j] + n[j] * P[k][i] + (n[i] * n[j] - (1 if i == j else 0)) * Pn) + 3 / r[k] ** 3 * (n[i] * cr(j) + n[j] * cr(i))
                ctx.eq(f"conformal Killing form of V is the Bowen-York curvature of puncture {k} [{i}{j}]", L[i][j], BY, budget=10)
    # the curvature from V, for any vector field
    F = [sp.Function(f"W{i}")(*x) for i in R3]
    A = ctx.call("A", st.ADD_conf_cartesian, list(x), F)
    LF = killing(F, x)
    fs = {}
    for i in R3:
        for j in R3:
            fs[F[i].diff(x[j])] = S(f"W{i}d{j}")
    sub = lambda e: sp.sympify(e).xreplace(fs)
    bad = []
    for i in R3:
        for j in R3:
            bad += [f"{i}{j}"] if sp.expand(sub(A[i][j]) - sub(LF[i][j])) != 0 else []
            # the part of the contract that holds for divergence-free V
            free = {S("W2d2"): -S("W0d0") - S("W1d1")}
            ctx.eq(f"ADD_conf is the conformal Killing form, divergence-free V [{i}{j}]", sub(A[i][j]).xreplace(free), sub(LF[i][j]).xreplace(free))
            ctx.eq(f"ADD_conf symmetric [{i}{j}]", sub(A[i][j]), sub(A[j][i]))
    ctx.check("ADD_conf is the conformal Killing form of any V", not bad, "sympy", cex=f"components {bad}: the divergence term is subtracted from the wrong components, e.g. ADD_conf[0][0] = {sub(A[0][0])}, contract {sub(LF[0][0])}")
    Am = [[S(f"A{i}{j}") for j in R3] for i in R3]
    ctx.eq("ADD_times_AUU is the full contraction", ctx.call("contraction", st.ADD_times_AUU_conf_cartesian, Am), sum(Am[i][j] ** 2 for i in R3 for j in R3))


def source_point(ctx, name):
    """psi_background and ADD_times_AUU of the package as functions of (xx, parameters) and the contract's values"""
    import nrpy.equations.nrpyelliptic.ConformallyFlat_SourceTerms as st
    import nrpy.reference_metric as refmetric
    psi, A2 = ctx.call("source terms", st.compute_psi_background_and_ADD_times_AUU, name)
    rfm = refmetric.reference_metric[name]
    xc = [R(q) for q in rfm.xx_to_Cart]
    return R(psi), R(A2), xc


PUNC = ["zPunc", "bare_mass_0", "bare_mass_1"] + [f"{a}{k}_{c}" for a in "PS" for k in "01" for c in "xyz"]


def source_values(pt, X3, defect):
    """Bowen-York data at the Cartesian point X3; defect: curvature as the package defines it today (known finding)"""
    f = lambda n: pt[S(n)]
    psi = mpmath.mpf(1)
    DV = mpmath.matrix(3, 3)
    for k, z in ((0, f("zPunc")), (1, -f("zPunc"))):
        d = [X3[0], X3[1], X3[2] - z]
        r = mpmath.sqrt(sum(q * q for q in d))
        psi += f(f"bare_mass_{k}") / (2 * r)
        P, Q = [f(f"P{k}_{c}") for c in "xyz"], [f(f"S{k}_{c}") for c in "xyz"]
        xp = sum(a * b for a, b in zip(d, P))
        cr = [d[(i + 1) % 3] * Q[(i + 2) % 3] - d[(i + 2) % 3] * Q[(i + 1) % 3] for i in R3]
        for i in R3:
            for j in R3:
                # derivative of V^i = -7 P/(4 r) - (x.P) x/(4 r^3) + (x cross S)/r^3
                dl = 1 if i == j else 0
                dcr = 0
                for a in R3:
                    e = int(sp.LeviCivita(i, j, a))
                    dcr += e * Q[a]
                DV[i, j] += mpmath.mpf(7) / 4 * P[i] * d[j] / r ** 3 - (P[j] * d[i] + xp * dl) / (4 * r ** 3) + 3 * xp * d[i] * d[j] / (4 * r ** 5) + dcr / r ** 3 - 3 * cr[i] * d[j] / r ** 5
    div = sum(DV[i, i] for i in R3)
    A2 = mpmath.mpf(0)
    for i in R3:
        for j in R3:
            on = (i == j) != defect
            A2 += (DV[i, j] + DV[j, i] - (mpmath.mpf(2) / 3 * div if on else 0)) ** 2
    return psi, A2


def u_source_coord(ctx, name):
    from vf.algnf import DagEval
    ctx.under(EQE + "ConformallyFlat_SourceTerms.compute_psi_background_and_ADD_times_AUU", EQE + "ConformallyFlat_SourceTerms.replace_cart_coord_by_xx")
    psi, A2, xc = source_point(ctx, name)
    rng = random.Random(name)
    bad = {"psi": None, "A2": None, "A2 spin": None}
    n = 0
    with mpmath.workdps(40):
        for k in range(4):
            pt = {}
            for s in psi.free_symbols | A2.free_symbols | set().union(*[q.free_symbols for q in xc]):
                nm = str(s)
                pt[s] = mpmath.mpf(rng.randint(250, 900)) / 1000 if nm.startswith("xx") or "SINHW" in nm else mpmath.mpf(rng.randint(1100, 3000)) / 1000
            for nm in PUNC:
                pt[S(nm)] = mpmath.mpf(rng.randint(-1000, 1000)) / 1000 if nm[0] in "PS" else mpmath.mpf(rng.randint(300, 1500)) / 1000
            pt[S("PI")] = mpmath.pi
            if k == 3:  # no linear momentum: V is divergence-free
                for nm in PUNC:
                    if nm[0] == "P":
                        pt[S(nm)] = mpmath.mpf(0)
            ev = DagEval(pt)
            w = source_values(pt, [ev(q) for q in xc], False)
            got = ev(psi), ev(A2)
            n += 1
            if abs(got[0] - w[0]) > 1e-25 * abs(w[0]):
                bad["psi"] = bad["psi"] or f"psi_background {mpmath.nstr(got[0], 15)}, contract {mpmath.nstr(w[0], 15)}"
            if abs(got[1] - w[1]) > 1e-25 * abs(w[1]):
                bad["A2"] = bad["A2"] or f"ADD_times_AUU {mpmath.nstr(got[1], 15)}, contract {mpmath.nstr(w[1], 15)}"
                if k == 3:
                    bad["A2 spin"] = f"ADD_times_AUU {mpmath.nstr(got[1], 15)}, contract {mpmath.nstr(w[1], 15)} with spins only"
            w2 = source_values(pt, [ev(q) for q in xc], True)
            if abs(got[1] - w[1]) > 1e-25 * abs(w[1]) and abs(got[1] - w2[1]) > 1e-25 * abs(w2[1]):
                bad["other"] = f"ADD_times_AUU {mpmath.nstr(got[1], 15)}, contract {mpmath.nstr(w[1], 15)} (with the known finding: {mpmath.nstr(w2[1], 15)})"
    ctx.cover("points evaluated", n == 4)
    ctx.check("psi_background at the point's Cartesian position", bad["psi"] is None, "mpmath-40-digits", cex=bad["psi"], bounded=True)
    ctx.check("ADD_times_AUU at the point's Cartesian position, spins only", bad["A2 spin"] is None, "mpmath-40-digits", cex=bad["A2 spin"], bounded=True)
    if name == "Cartesian":
        ctx.check("ADD_times_AUU at the point's Cartesian position", bad["A2"] is None, "mpmath-40-digits", cex=bad["A2"], bounded=True)
    ctx.check("ADD_times_AUU differs from Bowen-York by the known finding at most", bad.get("other") is None, "mpmath-40-digits", cex=bad.get("other"), bounded=True)


# ------------------------------------------------------------------ black-hole data
def geometry(g, K, al, be, env, stationary, alphasign=1):
    memo = {}
    E = lambda e: (lambda v: v if isinstance(v, J) else J.const(v))(jets.ev(R(e), env, memo))
    gam = [[E(g[i][j]) for j in R3] for i in R3]
    KK = [[E(K[i][j]) for j in R3] for i in R3]
    gi, det = jets.inv3(gam)
    G = jets.christoffel(gam, gi)
    Ric = jets.ricci(G)
    Z = lambda: J.const(0)
    v = lambda a: a.c[0]
    Km = [[sum((gi[i][m] * KK[m][j] for m in R3), Z()) for j in R3] for i in R3]
    trK = sum((Km[i][i] for i in R3), Z())
    Rs = sum((gi[i][j] * Ric[i][j] for i in R3 for j in R3), Z())
    K2 = sum((Km[i][j] * Km[j][i] for i in R3 for j in R3), Z())
    sc = [abs(v(gi[i][j] * Ric[i][j])) for i in R3 for j in R3] + [abs(v(K2)), abs(v(trK)) ** 2]
    H = v(Rs + trK * trK - K2), max(sc) + mpmath.mpf("1e-12")
    V = [[sum((Km[i][m] * gi[m][j] for m in R3), Z()) - gi[i][j] * trK for j in R3] for i in R3]
    M = []
    for i in R3:
        t = [v(V[i][j].d(j)) for j in R3] + [v(G[i][j][m] * V[m][j] + G[j][j][m] * V[i][m]) for j in R3 for m in R3]
        M.append((sum(t), max(map(abs, t)) + mpmath.mpf("1e-12")))
    out = {"H": H, "M0": M[0], "M1": M[1], "M2": M[2]}
    if stationary:
        a, b = E(al), [E(q) for q in be]
        lie = lambda Q, i, j: sum((b[m] * Q[i][j].d(m) + Q[m][j] * b[m].d(i) + Q[i][m] * b[m].d(j) for m in R3), Z())
        for i in R3:
            for j in range(i, 3):
                x, y = v(lie(gam, i, j)), v(a * KK[i][j] * 2)
                out[f"gammadot{i}{j}"] = x - y, max(abs(x), abs(y), mpmath.mpf("1e-12"))
                t = [v(lie(KK, i, j)), -v(a.d(i, j)), v(sum((G[m][i][j] * a.d(m) for m in R3), Z())), v(a * Ric[i][j]), v(a * trK * KK[i][j]), -2 * v(a * sum((KK[i][m] * Km[m][j] for m in R3), Z()))]
                out[f"Kdot{i}{j}"] = sum(t), max(map(abs, t)) + mpmath.mpf("1e-12")
    return out


def uiuc_gauge(M, chi, r, th):
    """Kerr lapse and shift in Boyer-Lindquist slicing with the UIUC radius (lapse negative inside the horizon)"""
    a = M * chi
    rp, rm = M + sp.sqrt(M ** 2 - a ** 2), M - sp.sqrt(M ** 2 - a ** 2)
    rb = r * (1 + rp / (4 * r)) ** 2
    Sg, D = rb ** 2 + a ** 2 * sp.cos(th) ** 2, rb ** 2 - 2 * M * rb + a ** 2
    A = (rb ** 2 + a ** 2) ** 2 - D * a ** 2 * sp.sin(th) ** 2
    sqrtD = (r - rp / 4) * sp.sqrt((rb - rm) / r)
    return sqrtD * sp.sqrt(Sg / A), [0, 0, -2 * M * a * rb / A], a, rb, Sg, D, A


def make_id(ctx, kind, override=False):
    from nrpy.equations.general_relativity.InitialData_Cartesian import InitialData_Cartesian
    from nrpy.equations.general_relativity.InitialData_Spherical import InitialData_Spherical
    c = InitialData_Cartesian if kind == "BrillLindquist" else InitialData_Spherical
    ctx.under(EQG + f"{c.__name__}.{c.__name__}.__init__", EQG + f"{c.__name__}.{c.__name__}.{kind}")
    return ctx.call(kind, c, kind, override)


def u_bh(ctx, kind):
    setcf("W")
    o = make_id(ctx, kind)
    r, th, ph = (S("r"), S("th"), S("ph"))
    M, a, chi, r0 = map(S, ("M", "a", "chi", "r0"))
    g, K = [[R(q) for q in row] for row in o.gammaDD], [[R(q) for q in row] for row in o.KDD]
    for i in R3:
        for j in range(i):
            ctx.check(f"gammaDD, KDD symmetric [{i}{j}]", g[i][j] == g[j][i] and K[i][j] == K[j][i], "symbolic", cex=f"{g[i][j]} / {g[j][i]}; {K[i][j]} / {K[j][i]}")
    al, be = R(o.alpha), [R(q) for q in o.betaU]
    if kind == "BrillLindquist":
        x = [S("x"), S("y"), S("z")]
        psi = 1 + sum(S(f"BH{k}_mass") / (2 * sp.sqrt(sum((x[i] - S(f"BH{k}_posn_{'xyz'[i]}")) ** 2 for i in R3))) for k in (1, 2))
        ctx.eq("psi harmonic", sum(psi.diff(q, 2) for q in x), sp.Integer(0))
        for i in R3:
            for j in R3:
                ctx.eq(f"gammaDD = psi^4 delta [{i}{j}]", g[i][j], psi ** 4 if i == j else sp.Integer(0))
                ctx.check(f"KDD = 0 [{i}{j}]", K[i][j] == 0, "symbolic", cex=str(K[i][j]))
        cart = x
    else:
        cart = [r, th, ph]
    if kind == "UIUCBlackHole":
        al, be, aa, rb, Sg, D, A = uiuc_gauge(M, chi, r, th)
        want = [Sg / D * rb.diff(r) ** 2, Sg, A * sp.sin(th) ** 2 / Sg]
        for i in R3:
            for j in R3:
                ctx.eq(f"gammaDD is Kerr's on a Boyer-Lindquist slice [{i}{j}]", g[i][j], want[i] if i == j else sp.Integer(0), budget=20)
    if kind == "StaticTrumpet":
        Ra = r + M
        ctx.eq("areal radius r + M", g[1][1], Ra ** 2)
        ctx.eq("time-time component of Schwarzschild's metric", al ** 2 - g[0][0] * be[0] ** 2, 1 - 2 * M / Ra)
        ctx.eq("angular metric", g[2][2], g[1][1] * sp.sin(th) ** 2)
    if kind == "OffsetKerrSchild":
        k = r + r0
        rho = k ** 2 + a ** 2 * sp.cos(th) ** 2
        z = 2 * M * k / rho
        low = [sum(g[i][j] * be[j] for j in R3) for i in R3]
        ctx.eq("g_tt of Kerr-Schild", -al ** 2 + sum(low[i] * be[i] for i in R3), -1 + z)
        for i, w in enumerate([z, sp.Integer(0), -z * a * sp.sin(th) ** 2]):
            ctx.eq(f"g_t{i} of Kerr-Schild", low[i], w)
        W = [[1 + z, 0, -a * (1 + z) * sp.sin(th) ** 2], [0, rho, 0], [-a * (1 + z) * sp.sin(th) ** 2, 0, (k ** 2 + a ** 2 + z * a ** 2 * sp.sin(th) ** 2) * sp.sin(th) ** 2]]
        for i in R3:
            for j in R3:
                ctx.eq(f"gammaDD of Kerr-Schild [{i}{j}]", g[i][j], sp.sympify(W[i][j]))
    for i in R3:
        ctx.check(f"BU = 0 [{i}]", o.BU[i] == 0, "symbolic", cex=str(o.BU[i]))
    stat = kind != "BrillLindquist"
    if stat:
        for i in R3:
            for j in range(i, 3):
                L = sum(be[m] * g[i][j].diff(cart[m]) + g[m][j] * sp.sympify(be[m]).diff(cart[i]) + g[i][m] * sp.sympify(be[m]).diff(cart[j]) for m in R3)
                ctx.eq(f"KDD is the extrinsic curvature of the stationary slice [{i}{j}]", 2 * al * K[i][j], L, budget=25, sampler=bh_sampler(kind))
    # constraints (and stationarity) at random points
    rng = random.Random(kind)
    worst, n = {}, 0
    mpmath.mp.dps = 40
    for k in range(6 if thorough() else 3):
        env = {}
        for d in R3:
            env[cart[d]] = J.var(d, mpmath.mpf(rng.randint(400, 2400)) / 1000 if kind != "BrillLindquist" else mpmath.mpf(rng.randint(-2000, 2000)) / 1000)
        if kind == "UIUCBlackHole":
            env[r] = J.var(0, mpmath.mpf(["0.17", "0.9", "3.1", "0.05", "1.4", "0.33"][k]))
        for nme, lo, hi in (("M", 600, 1400), ("a", 100, 500), ("chi", 100, 900), ("r0", 100, 900), ("BH1_mass", 200, 900), ("BH2_mass", 200, 900), *[(f"BH{q}_posn_{c}", -900, 900) for q in "12" for c in "xyz"]):
            env[S(nme)] = J.const(mpmath.mpf(rng.randint(lo, hi)) / 1000)
        for q, (val, sc) in geometry(g, K, al, be, env, stat).items():
            n += 1
            e = abs(val) / sc
            if e > worst.get(q, (0,))[0]:
                worst[q] = (e, {str(s): mpmath.nstr(j.c[0], 8) for s, j in env.items()})
            worst.setdefault(q, (mpmath.mpf(0), None))
    for q, (e, at) in sorted(worst.items()):
        what = {"H": "Hamiltonian constraint", "M": "momentum constraint", "g": "time derivative of gamma vanishes", "K": "time derivative of K vanishes"}[q[0]]
        ctx.check(f"{what} [{q}]", e < 1e-25, "taylor-40-digits", cex=f"relative violation {mpmath.nstr(e, 5)} at {at}", bounded=True)
    ctx.cover("evaluated", n >= 12)


def bh_sampler(kind):
    def f(syms, rng):
        out = {}
        for s in syms:
            n = str(s)
            lo, hi = {"r": (0.6, 3), "th": (0.3, 1.3), "M": (0.5, 1.5), "a": (0.1, 0.4), "chi": (0.1, 0.9), "r0": (0.1, 1)}.get(n, (0.3, 1.4))
            out[s] = mpmath.mpf(rng.uniform(lo, hi))
        return out
    return f


def u_gauge(ctx, kind, cf):
    """standard gauge: alpha = psi^-2 with psi^12 = det gamma / det of the flat metric, zero shift"""
    setcf(cf)
    try:
        for override in (False, True):
            o = make_id(ctx, kind, override)
            if not override and kind in ("StaticTrumpet", "OffsetKerrSchild"):
                ctx.check("the data's own lapse is kept unless overridden", R(o.alpha) != 0 and R(o.betaU[0]) != 0, "symbolic", cex=str(o.alpha))
                continue
            G = [[R(q) for q in row] for row in o.gammaDD]
            det = sum(G[0][i] * (G[1][(i + 1) % 3] * G[2][(i + 2) % 3] - G[1][(i + 2) % 3] * G[2][(i + 1) % 3]) for i in R3)
            flat = 1 if kind == "BrillLindquist" else S("r") ** 4 * sp.sin(S("th")) ** 2
            al = R(o.alpha).xreplace({X[0]: S("r"), X[1]: S("th")}) if kind != "BrillLindquist" else R(o.alpha)
            ctx.eq(f"alpha^6 det gamma = det of the flat metric, override={override}", al ** 6 * det, sp.sympify(flat), budget=1, sampler=bh_sampler(kind))
            from vf.algnf import numeric
            rng = random.Random(3)
            pt = bh_sampler(kind)(al.free_symbols, rng)
            v = numeric(al, pt)
            ctx.check(f"alpha positive, override={override}", mpmath.im(v) == 0 and v > 0, "mpmath", cex=str(v), bounded=True)
            ctx.check(f"shift and its time derivative vanish, override={override}", all(q == 0 for q in list(o.betaU) + list(o.BU)), "symbolic", cex=f"{o.betaU} {o.BU}")
        from nrpy.equations.general_relativity.InitialData_Cartesian import InitialData_Cartesian
        from nrpy.equations.general_relativity.InitialData_Spherical import InitialData_Spherical
        ctx.raises("unknown data types are rejected (Spherical)", lambda: InitialData_Spherical("nothing"), ValueError)
        ctx.raises("unknown data types are rejected (Cartesian)", lambda: InitialData_Cartesian("nothing"), ValueError)
    finally:
        setcf("W")


# ------------------------------------------------------------------ generated kernels
MAIN = r"""
  commondata_struct commondata;
  commondata_struct_set_to_default(&commondata);
  griddata_struct *griddata = (griddata_struct *)malloc(sizeof(griddata_struct) * commondata.NUMGRIDS);
  params_struct_set_to_default(&commondata, griddata);
  @SET@
  numerical_grids_and_timestep(&commondata, griddata, true);
  params_struct *params = &griddata[0].params;
  const int N0 = params->Nxx_plus_2NGHOSTS0, N1 = params->Nxx_plus_2NGHOSTS1, N2 = params->Nxx_plus_2NGHOSTS2;
  const size_t np = (size_t)N0 * N1 * N2;
  MoL_malloc_y_n_gfs(&commondata, params, &griddata[0].gridfuncs);
  MoL_malloc_non_y_n_gfs(&commondata, params, &griddata[0].gridfuncs);
  FILE *out = fopen("out.bin", "wb");
  printf("DIM %d %d %d %d %d\n", N0, N1, N2, NGHOSTS, commondata.NUMGRIDS);
  printf("DX %.17g %.17g %.17g %.17g\n", params->dxx0, params->dxx1, params->dxx2, commondata.dt);
  @PARAMS@
  for (int d = 0; d < 3; d++) fwrite(griddata[0].xx[d], sizeof(REAL), d == 0 ? N0 : d == 1 ? N1 : N2, out);
  REAL *y = griddata[0].gridfuncs.y_n_gfs;
  REAL *rhs = malloc(sizeof(REAL) * np * NUM_EVOL_GFS);
  @BODY@
  fclose(out);
  return 0;
"""
NANFILL = "memset(%s, 0xff, sizeof(REAL) * np * (%s));\n"
DUMP = "fwrite(%s, sizeof(REAL), np * (%s), out);\n"


class Field:
    """random polynomial of degree deg per direction in s_d = (xx_d - m_d)/l_d"""

    def __init__(self, seed, deg, scale=1.0):
        rng = random.Random(seed)
        self.t = []
        for e in itertools.product(range(deg + 1), repeat=3):
            if rng.random() < 0.45 or sum(e) <= 1:
                self.t.append((e, rng.randint(-100, 100) / 100 * scale / (1 + sum(e))))

    def c(self, name):
        pw = lambda d, k: "1" if k == 0 else "*".join([f"s{d}"] * k)
        return f"static REAL {name}(REAL s0, REAL s1, REAL s2) {{ return " + " + ".join(f"({v!r})*{pw(0, e[0])}*{pw(1, e[1])}*{pw(2, e[2])}" for e, v in self.t) + "; }\n"

    def at(self, s, l, d=()):
        out = 0
        for e, v in self.t:
            e, v = list(e), v
            for k in d:
                v = v * e[k] / l[k]
                e[k] -= 1
                if v == 0:
                    break
            if v:
                out = out + v * s[0] ** e[0] * s[1] ** e[1] * s[2] ** e[2]
        return out + 0 * s[0] * s[1] * s[2]


class Prog:
    """generate, compile and run one program around the given kernels"""

    def __init__(self, ctx, name, kind, pre, simd, ko, fd, N, wave="SphericalGaussian", sets="", body="", extra=(), size=4.0, prefunc="", threads=1, curvi=False, maps=False):
        import nrpy.c_function as cfc
        import nrpy.helpers.generic as hg
        import nrpy.infrastructures.BHaH.CurviBoundaryConditions.CurviBoundaryConditions as cbc
        import nrpy.infrastructures.BHaH.nrpyelliptic.conformally_flat_C_codegen_library as el
        import nrpy.infrastructures.BHaH.numerical_grids_and_timestep as ng
        import nrpy.infrastructures.BHaH.rfm_precompute as rp
        import nrpy.infrastructures.BHaH.rfm_wrapper_functions as rw
        import nrpy.infrastructures.BHaH.wave_equation.wave_equation_C_codegen_library as wl
        import nrpy.infrastructures.BHaH.xx_tofrom_Cart as xt
        import nrpy.params as par
        import nrpy.reference_metric as refmetric
        from nrpy.infrastructures.BHaH.MoLtimestepping import MoL
        self.ctx, self.ok = ctx, False
        bhah.reset()
        par.set_parval_from_str("fd_order", fd)
        par.set_parval_from_str("CoordSystem_to_register_CodeParameters", name)
        par.adjust_CodeParam_default("NUMGRIDS", 1)
        d = tempfile.mkdtemp(prefix="c19.")
        self.d = d
        simdhdr = dict(enable_intrinsics=simd, fin_NGHOSTS_add_one_for_upwinding_or_KO=ko)

        def go():
            if callable(kind):
                kind()
                xt.register_CFunction_xx_to_Cart(CoordSystem=name)
                if maps:
                    xt.register_CFunction__Cart_to_xx_and_nearest_i0i1i2(CoordSystem=name)
                if curvi:
                    cbc.CurviBoundaryConditions_register_C_functions(list_of_CoordSystems=[name])
            elif kind == "wave":
                for f in ("exact_solution_single_Cartesian_point", "initial_data", "rhs_eval"):
                    ctx.under("nrpy.infrastructures.BHaH.wave_equation.wave_equation_C_codegen_library.register_CFunction_" + f)
                wl.register_CFunction_exact_solution_single_Cartesian_point(WaveType=wave, default_sigma=1.7, default_k0=0.6, default_k1=-1.1, default_k2=0.9)
                wl.register_CFunction_initial_data(OMP_collapse=2)
                wl.register_CFunction_rhs_eval(CoordSystem=name, enable_rfm_precompute=pre, enable_simd=simd, enable_KreissOliger_dissipation=ko, OMP_collapse=2)
                xt.register_CFunction_xx_to_Cart(CoordSystem=name)
            else:
                for f in ("initial_guess_single_point", "initial_guess_all_points", "auxevol_gfs_single_point", "auxevol_gfs_all_points", "variable_wavespeed_gfs_all_points", "initialize_constant_auxevol", "compute_L2_norm_of_gridfunction", "check_stop_conditions", "rhs_eval", "compute_residual_all_points"):
                    ctx.under("nrpy.infrastructures.BHaH.nrpyelliptic.conformally_flat_C_codegen_library.register_CFunction_" + f)
                el.register_CFunction_initial_guess_single_point()
                el.register_CFunction_initial_guess_all_points(OMP_collapse=2)
                el.register_CFunction_auxevol_gfs_single_point(CoordSystem=name)
                el.register_CFunction_auxevol_gfs_all_points(OMP_collapse=2)
                el.register_CFunction_variable_wavespeed_gfs_all_points(CoordSystem=name)
                el.register_CFunction_initialize_constant_auxevol()
                el.register_CFunction_compute_L2_norm_of_gridfunction(CoordSystem=name)
                el.register_CFunction_check_stop_conditions()
                el.register_CFunction_rhs_eval(CoordSystem=name, enable_rfm_precompute=pre, enable_simd=simd, OMP_collapse=2)
                el.register_CFunction_compute_residual_all_points(CoordSystem=name, enable_rfm_precompute=pre, enable_simd=simd, OMP_collapse=2)
                xt.register_CFunction_xx_to_Cart(CoordSystem=name)
            ng.register_CFunctions(list_of_CoordSystems=[name], list_of_grid_physical_sizes=[size], Nxx_dict={name: N}, enable_rfm_precompute=pre, enable_CurviBCs=curvi)
            if pre:
                rp.register_CFunctions_rfm_precompute(list_of_CoordSystems=[name])
            MoL.register_CFunctions(MoL_method="RK4", rhs_string="", post_rhs_string="", enable_rfm_precompute=pre, enable_curviBCs=curvi)
            rw.register_CFunctions_CoordSystem_wrapper_funcs()
            rfm = refmetric.reference_metric[name]
            self.xc = [R(q) for q in rfm.xx_to_Cart]
            self.scale = [R(q) for q in rfm.scalefactor_orthog]
            fs = set().union(*[q.free_symbols for q in self.xc + self.scale]) - set(X)
            self.pn = sorted(str(s) for s in fs if str(s) not in ("PI", "M_PI"))
            pr = "".join(f'printf("PARAM {n} %.17g\\n", (double)params->{n});\n' for n in self.pn)
            cfc.register_CFunction(name="main", desc="m", cfunc_type="int", params="int argc, const char *argv[]", includes=["BHaH_defines.h", "BHaH_function_prototypes.h", "<string.h>"], prefunc=prefunc, body=MAIN.replace("@SET@", sets).replace("@PARAMS@", pr).replace("@BODY@", body))
            if simd:
                hg.copy_files(package="nrpy.helpers", filenames_list=["simd_intrinsics.h"], project_dir=d, subdirectory="intrinsics")
            bhah.write(d, rfm=pre, defines_kw=simdhdr)
        with contextlib.redirect_stdout(io.StringIO()):
            ctx.call("kernel generation", go)
        err = bhah.compile_(d)
        ctx.check("the generated kernels compile", not err, "gcc", cex=err[:1500], bounded=True)
        if err:
            return
        self.rc, self.out, self.err = bhah.run(d, cwd=d, timeout=250)
        ctx.check("the kernels run without memory errors", self.rc == 0, "native-asan", cex=f"status {self.rc}\n{self.err[-1500:]}", bounded=True)
        if self.rc:
            return
        ln = {x.split()[0] + (x.split()[1] if x.startswith("PARAM") else ""): x.split() for x in self.out.split("\n") if x.strip()}
        self.lines = ln
        self.N = [int(q) for q in ln["DIM"][1:4]]
        self.ng = int(ln["DIM"][4])
        self.dx = [float(q) for q in ln["DX"][1:4]]
        self.dt = float(ln["DX"][4])
        self.pv = {S(n): float(ln["PARAM" + n][2]) for n in self.pn}
        self.pv[S("PI")] = self.pv[S("M_PI")] = float(np.pi)
        self.raw = np.fromfile(os.path.join(d, "out.bin"), dtype=np.float64)
        self.off = 0
        xx = [self.take1(n) for n in self.N]
        self.xx = np.meshgrid(xx[2], xx[1], xx[0], indexing="ij")[::-1]
        self.xx1 = xx
        self.ok = True

    def take1(self, n):
        r = self.raw[self.off:self.off + n]
        self.off += n
        return r

    def gf(self, k):
        """k consecutive gridfunctions"""
        n = self.N[0] * self.N[1] * self.N[2]
        return self.take1(n * k).reshape(k, self.N[2], self.N[1], self.N[0])

    def fn(self, e):
        """numpy value of an expression of the coordinates on the grid"""
        e = R(e).xreplace({k: sp.Float(v, 20) for k, v in self.pv.items()})
        return sp.lambdify(X, e, "numpy")(*self.xx) + 0 * self.xx[0]

    @property
    def inner(self):
        return (slice(self.ng, -self.ng),) * 3

    def geometry(self):
        J1 = np.array([[self.fn(self.xc[a].diff(X[i])) for i in R3] for a in R3])
        H = np.array([[[self.fn(self.xc[a].diff(X[i], X[j])) for j in R3] for i in R3] for a in R3])
        Jt = np.moveaxis(J1, (0, 1), (-2, -1))
        self.Ji = Ji = np.moveaxis(np.linalg.inv(Jt[self.inner]), (-2, -1), (0, 1))  # [k][a]
        gU = np.einsum("iaxyz,jaxyz->ijxyz", Ji, Ji)
        G = np.einsum("kaxyz,aijxyz->kijxyz", Ji, H[(Ellipsis,) + self.inner])
        self.det = np.linalg.det(Jt)
        return gU, np.einsum("ijxyz,kijxyz->kxyz", gU, G)

    def close(self):
        shutil.rmtree(self.d, ignore_errors=True)


def agree(ctx, name, got, want, tol, scale=None, xx=None):
    sc = np.maximum(np.abs(want), np.abs(want).max() * 1e-3) if scale is None else scale
    e = np.abs(got - want) / (sc + 1e-300)
    bad = ~(e < tol)
    i = np.unravel_index(np.argmax(np.where(np.isnan(e), np.inf, e)), e.shape)
    ctx.check(name, not bad.any(), "native-vs-contract", cex=f"{int(bad.sum())} of {bad.size} points; at {i[::-1]}: got {got[i]!r}, contract {want[i]!r}", bounded=True)


def laplace(p, F, s, l):
    gU, Gk = p.geometry()
    d2 = np.array([[F.at(s, l, (i, j)) for j in R3] for i in R3])[(Ellipsis,) + p.inner]
    d1 = np.array([F.at(s, l, (i,)) for i in R3])[(Ellipsis,) + p.inner]
    t = np.concatenate([(gU * d2).reshape(9, *d2.shape[2:]), Gk * d1])
    return (gU * d2).sum((0, 1)) - (Gk * d1).sum(0), np.abs(t).max(0)


def kosten(p, A, fd, d):
    """Kreiss-Oliger stencil in direction d (before division by the proper scale)"""
    m = fd // 2 + 1
    ax = 2 - d
    out = 0
    n = A.shape[ax]
    from math import comb
    for j in range(-m, m + 1):
        sl = [slice(p.ng, -p.ng)] * 3
        sl[ax] = slice(p.ng + j, n - p.ng + j)
        out = out + (-1) ** (j + 1) * comb(2 * m, m + j) * A[tuple(sl)]
    return out / 2 ** (2 * m) / p.dx[d]


NPT = {"wave": [8, 6, 10], "elliptic": [8, 6, 10]}


def poly_code(fields, targets, npts="np"):
    body = "const REAL mm[3] = {0.5*(params->xxmin0+params->xxmax0), 0.5*(params->xxmin1+params->xxmax1), 0.5*(params->xxmin2+params->xxmax2)}, ll[3] = {params->xxmax0-params->xxmin0, params->xxmax1-params->xxmin1, params->xxmax2-params->xxmin2};\n"
    body += 'printf("BOX %.17g %.17g %.17g %.17g %.17g %.17g\\n", mm[0], mm[1], mm[2], ll[0], ll[1], ll[2]);\n'
    body += "for (int i2 = 0; i2 < N2; i2++) for (int i1 = 0; i1 < N1; i1++) for (int i0 = 0; i0 < N0; i0++) {\n const size_t q = i0 + (size_t)N0 * (i1 + (size_t)N1 * i2);\n const REAL s0 = (griddata[0].xx[0][i0] - mm[0]) / ll[0], s1 = (griddata[0].xx[1][i1] - mm[1]) / ll[1], s2 = (griddata[0].xx[2][i2] - mm[2]) / ll[2];\n"
    body += "".join(f" {t} = {f}(s0, s1, s2);\n" for f, t in zip(fields, targets)) + "}\n"
    return body


def u_wave_c(ctx, name, pre, simd, ko, wave, N):
    fd = 4
    U, V = Field(name + "u", 4), Field(name + "v", 4)
    if ko:  # seventh powers are not annihilated by the dissipation stencil
        for F in (U, V):
            F.t += [((6, 0, 0), 0.9), ((0, 7, 1), -0.8), ((1, 0, 6), 0.7)]
        U0 = None
    arg = "&griddata[0].rfmstruct" if pre else "griddata[0].xx"
    body = NANFILL % ("y", "NUM_EVOL_GFS") + "commondata.time = 0.7; initial_data(&commondata, griddata);\n" + DUMP % ("y", "2") + poly_code(["vf_u", "vf_v"], ["y[q + np * UUGF]", "y[q + np * VVGF]"]) + DUMP % ("y", "2") + NANFILL % ("rhs", "NUM_EVOL_GFS") + f"rhs_eval(&commondata, params, {arg}, y, rhs);\n" + DUMP % ("rhs", "2")
    sets = "commondata.wavespeed = 1.3;\n" + ("commondata.KreissOliger_diss_strength = 0.37;\n" if ko else "")
    p = Prog(ctx, name, "wave", pre, simd, ko, fd, N, wave=wave, sets=sets, body=body, prefunc=U.c("vf_u") + V.c("vf_v"))
    try:
        if not p.ok:
            return
        ID, Y, RHS = p.gf(2), p.gf(2), p.gf(2)
        xc = [p.fn(q) for q in p.xc]
        t, c, sg = 0.7, 1.3, 1.7
        if wave == "PlaneWave":
            k = np.array([0.6, -1.1, 0.9])
            ph = sum(k[i] * xc[i] for i in R3) / np.sqrt((k * k).sum()) - c * t
            u, v = np.sin(ph) + 2, -c * np.cos(ph)
        else:
            r = np.sqrt(sum(q * q for q in xc)).astype(np.longdouble)
            org = r < 1e-9
            r = np.where(org, 1, r)
            f = lambda w: w * np.exp(-w * w / (2 * sg * sg))
            df = lambda w: (1 - w * w / sg ** 2) * np.exp(-w * w / (2 * sg * sg))
            ddf = lambda w: (-3 * w / sg ** 2 + w ** 3 / sg ** 4) * np.exp(-w * w / (2 * sg * sg))
            u = np.where(org, 2 + 2 * df(c * t), 2 + (f(r - c * t) + f(r + c * t)) / r).astype(float)
            v = np.where(org, 2 * c * ddf(c * t), c * (df(r + c * t) - df(r - c * t)) / r).astype(float)
        agree(ctx, "initial data: uu is the exact solution at every point, ghost zones included", ID[0], u, 1e-9, scale=1 + np.abs(u))
        agree(ctx, "initial data: vv is its time derivative at every point", ID[1], v, 1e-9, scale=1 + np.abs(v))
        bx = [float(q) for q in p.lines["BOX"][1:]]
        s = [(p.xx[d] - bx[d]) / bx[3 + d] for d in R3]
        agree(ctx, "test field as intended", Y[0], U.at(s, bx[3:]), 1e-9, scale=1.0)
        inn = p.inner
        if not ko:
            L, sc = laplace(p, U, s, bx[3:])
            ur, vr = V.at(s, bx[3:])[inn], c * c * L
            agree(ctx, "rhs_eval: uu_rhs", RHS[0][inn], ur, 1e-8, scale=1 + np.abs(ur))
            agree(ctx, "rhs_eval: vv_rhs", RHS[1][inn], vr, 1e-8, scale=c * c * sc + 1e-3)
        else:
            # the centred stencils are not exact on the high powers: compare with the contract's stencils applied to the same data
            D1, D2 = stencils(p, Y[0], fd)
            gU, Gk = p.geometry()
            L = (gU * D2).sum((0, 1)) - (Gk * D1).sum(0)
            sc = np.abs(np.concatenate([(gU * D2).reshape(9, *L.shape), Gk * D1])).max(0)
            h = [p.fn(q)[inn] for q in p.scale]
            ku, kv = (sum(kosten(p, Y[g], fd, d) / h[d] for d in R3) for g in (0, 1))
            ctx.cover("dissipation acts", np.abs(ku).max() > 1e-6)
            agree(ctx, "rhs_eval with dissipation: uu_rhs", RHS[0][inn], Y[1][inn] + 0.37 * ku, 1e-8, scale=1 + np.abs(ku))
            agree(ctx, "rhs_eval with dissipation: vv_rhs", RHS[1][inn], c * c * L + 0.37 * kv, 1e-8, scale=c * c * sc + np.abs(kv) + 1e-3)
        frame = np.ones(RHS[0].shape, bool)
        frame[inn] = False
        ctx.check("rhs_eval writes interior points only", bool(np.isnan(RHS[:, frame]).all()) and not np.isnan(RHS[(slice(None),) + inn]).any(), "native-frame", cex=f"{int((~np.isnan(RHS[:, frame])).sum())} ghost values written, {int(np.isnan(RHS[(slice(None),) + inn]).sum())} interior values unset", bounded=True)
    finally:
        p.close()


def stencils(p, A, fd):
    """fourth-order centred first and second derivatives at interior points"""
    assert fd == 4
    c1 = {-2: 1 / 12, -1: -2 / 3, 1: 2 / 3, 2: -1 / 12}
    c2 = {-2: -1 / 12, -1: 4 / 3, 0: -5 / 2, 1: 4 / 3, 2: -1 / 12}

    def sh(o):
        return A[tuple(slice(p.ng + o[d], A.shape[2 - d] - p.ng + o[d]) for d in (2, 1, 0))]

    def un(d, k):
        o = [0, 0, 0]
        o[d] = k
        return o
    D1 = np.array([sum(c * sh(un(d, k)) for k, c in c1.items()) / p.dx[d] for d in R3])
    D2 = [[None] * 3 for _ in R3]
    for i in R3:
        for j in R3:
            if i == j:
                D2[i][i] = sum(c * sh(un(i, k)) for k, c in c2.items()) / p.dx[i] ** 2
            else:
                t = 0
                for k, c in c1.items():
                    for m, e in c1.items():
                        o = [0, 0, 0]
                        o[i], o[j] = k, m
                        t = t + c * e * sh(o)
                D2[i][j] = t / p.dx[i] / p.dx[j]
    return D1, np.array(D2)


def u_elliptic_c(ctx, name, pre, simd, N):
    fd = 4
    U, V, A1, A2, A3 = Field(name + "u", 4), Field(name + "v", 4), Field(name + "p", 2, 0.3), Field(name + "q", 2), Field(name + "w", 2)
    arg = "&griddata[0].rfmstruct" if pre else "griddata[0].xx"
    rng = random.Random(name)
    vals = {}
    for n in PUNC:
        vals[n] = rng.randint(-900, 900) / 1000 if n[0] in "PS" else rng.randint(300, 1500) / 1000
    sets = "".join(f"commondata.{n} = {v};\n" for n, v in vals.items()) + "commondata.eta_damping = 3.5; commondata.MINIMUM_GLOBAL_WAVESPEED = 0.45;\n"
    body = "REAL *aux = griddata[0].gridfuncs.auxevol_gfs, *dg = malloc(sizeof(REAL) * np * NUM_AUX_GFS);\n"
    body += 'printf("GF %d %d %d %d\\n", NUM_EVOL_GFS, NUM_AUXEVOL_GFS, NUM_AUX_GFS, PSI_BACKGROUNDGF);\n'
    body += 'printf("IDX %d %d %d %d %d\\n", UUGF, PSI_BACKGROUNDGF, ADD_TIMES_AUUGF, VARIABLE_WAVESPEEDGF, RESIDUAL_HGF);\n'
    body += NANFILL % ("y", "2") + NANFILL % ("aux", "3") + "initial_data(&commondata, griddata);\ninitialize_constant_auxevol(&commondata, griddata);\n" + DUMP % ("y", "2") + DUMP % ("aux", "3")
    body += poly_code(["vf_u", "vf_v", "3.0 + vf_p", "vf_q", "vf_w"], ["y[q + np * UUGF]", "y[q + np * VVGF]", "aux[q + np * PSI_BACKGROUNDGF]", "aux[q + np * ADD_TIMES_AUUGF]", "aux[q + np * VARIABLE_WAVESPEEDGF]"])
    body += NANFILL % ("rhs", "2") + NANFILL % ("dg", "NUM_AUX_GFS") + f"rhs_eval(&commondata, params, {arg}, aux, y, rhs);\n" + f"compute_residual_all_points(&commondata, params, {arg}, aux, y, dg);\n" + DUMP % ("rhs", "2") + DUMP % ("dg", "1")
    body += 'for (int k = 0; k < 3; k++) printf("L2%d %.17g\\n", k, compute_L2_norm_of_gridfunction(&commondata, griddata, k == 0 ? 1e6 : k == 1 ? 3.0 : 1.7, RESIDUAL_HGF, dg));\n'
    body += 'printf("L2v %.17g\\n", compute_L2_norm_of_gridfunction(&commondata, griddata, 2.6, VVGF, y));\n'
    body += 'memset(y, 0, sizeof(REAL) * np * 2); printf("L2z %.17g\\n", compute_L2_norm_of_gridfunction(&commondata, griddata, 1e6, UUGF, y));\n'
    body += r"""
  const int nn_t[6] = {9, 10, 11, 9, 9, 0}; const REAL res_t[6] = {-3, -3, -3, -8, -7.5, -9};
  freopen("stop.txt", "w", stderr);
  for (int k = 0; k < 6; k++) {
    commondata.nn_max = 10; commondata.log10_residual_tolerance = -7.5; commondata.stop_relaxation = false;
    commondata.nn = nn_t[k]; commondata.log10_current_residual = res_t[k];
    check_stop_conditions(&commondata, griddata);
    printf("\nSTOP%d %d\n", k, (int)commondata.stop_relaxation);
  }
"""
    p = Prog(ctx, name, "elliptic", pre, simd, False, fd, N, sets=sets, body=body, prefunc=U.c("vf_u") + V.c("vf_v") + A1.c("vf_p") + A2.c("vf_q") + A3.c("vf_w"))
    try:
        if not p.ok:
            return
        iu, ip, iA, iw, ir = [int(q) for q in p.lines["IDX"][1:]]
        G, AX = p.gf(2), p.gf(3)
        RHS, RES = p.gf(2), p.gf(1)[0]
        ctx.check("initial guess: zero at every point, ghost zones included", bool((G == 0).all()), "native-vs-contract", cex=str(G[~(G == 0)][:3]), bounded=True)
        inn = p.inner
        # source terms at a sample of points, in multiprecision
        pt = {S(n): mpmath.mpf(v) for n, v in vals.items()}
        xc = [p.fn(q) for q in p.xc]
        bad = [None] * 4
        gu = random.Random(5)
        far = np.sqrt(np.minimum(xc[0] ** 2 + xc[1] ** 2 + (xc[2] - vals["zPunc"]) ** 2, xc[0] ** 2 + xc[1] ** 2 + (xc[2] + vals["zPunc"]) ** 2))
        for _ in range(60):
            i = tuple(gu.randrange(n) for n in far.shape)
            if far[i] < 0.05:
                continue
            P3 = [mpmath.mpf(float(xc[d][i])) for d in R3]
            w, w2 = source_values(pt, P3, False), source_values(pt, P3, True)
            g = AX[ip][i], AX[iA][i]
            if abs(g[0] - w[0]) > 1e-9 * abs(w[0]):
                bad[0] = bad[0] or f"point {i[::-1]}: psi_background {g[0]!r}, contract {float(w[0])!r}"
            if not abs(g[1] - w[1]) < 1e-7 * abs(w[1]) and not abs(g[1] - w2[1]) < 1e-7 * abs(w2[1]):
                bad[1] = bad[1] or f"point {i[::-1]}: ADD_times_AUU {g[1]!r}, contract {float(w[1])!r} (with the known finding {float(w2[1])!r})"
        ctx.check("auxevol: psi_background at every point, ghost zones included", bad[0] is None and np.isfinite(AX[ip]).all(), "native-vs-contract", cex=bad[0] or "unset values", bounded=True)
        ctx.check("auxevol: ADD_times_AUU at every point, up to the known finding", bad[1] is None and np.isfinite(AX[iA]).all(), "native-vs-contract", cex=bad[1] or "unset values", bounded=True)
        h = np.array([np.abs(p.fn(q)) * p.dx[d] for d, q in enumerate(p.scale)])
        cw = 0.45 * h.min(0) / p.dt
        agree(ctx, "wave speed: minimum proper grid spacing over dt", AX[iw][inn], cw[inn], 1e-10)
        ctx.check("wave speed bounded below by its global minimum", AX[iw][inn].min() >= 0, "native-vs-contract", cex=str(AX[iw][inn].min()), bounded=True)
        bx = [float(q) for q in p.lines["BOX"][1:]]
        s = [(p.xx[d] - bx[d]) / bx[3 + d] for d in R3]
        l = bx[3:]
        Lp, sc = laplace(p, U, s, l)
        f = {n: F.at(s, l)[inn] for n, F in (("u", U), ("v", V), ("p", A1), ("q", A2), ("w", A3))}
        Hc = Lp + f["q"] / 8 * (3.0 + f["p"] + f["u"]) ** -7
        hs = sc + np.abs(f["q"] / 8 * (3.0 + f["p"] + f["u"]) ** -7) + 1e-3
        agree(ctx, "rhs_eval: uu_rhs", RHS[0][inn], f["v"] - 3.5 * f["u"], 1e-8, scale=1 + np.abs(f["v"]) + np.abs(f["u"]))
        agree(ctx, "rhs_eval: vv_rhs", RHS[1][inn], f["w"] ** 2 * Hc, 1e-8, scale=f["w"] ** 2 * hs + 1e-3)
        agree(ctx, "compute_residual_all_points: Hamiltonian constraint", RES[inn], Hc, 1e-8, scale=hs)
        frame = np.ones(RES.shape, bool)
        frame[inn] = False
        ctx.check("rhs_eval and residual write interior points only", bool(np.isnan(RHS[:, frame]).all() and np.isnan(RES[frame]).all()) and not np.isnan(RES[inn]).any(), "native-frame", cex="", bounded=True)
        # volume-weighted norm
        r = np.sqrt(sum(q * q for q in xc))[inn]
        dV = np.abs(p.det[inn]) * p.dx[0] * p.dx[1] * p.dx[2]
        for tag, rad, fld in (("L20", 1e6, RES[inn]), ("L21", 3.0, RES[inn]), ("L22", 1.7, RES[inn]), ("L2v", 2.6, f["v"])):
            m = r < rad
            if not m.any():
                continue
            w = np.log10(1e-16 + np.sqrt((fld[m] ** 2 * dV[m]).sum() / dV[m].sum()))
            got = float(p.lines[tag][1])
            ctx.check(f"compute_L2_norm: volume-weighted norm inside r < {rad} [{tag}]", abs(got - w) < 1e-8, "native-vs-contract", cex=f"got {got!r}, contract {w!r}", bounded=True)
        got = float(p.lines["L2z"][1])
        ctx.check("compute_L2_norm: zero field", abs(got + 16) < 1e-9, "native-vs-contract", cex=repr(got), bounded=True)
        st = [int(p.lines[f"STOP{k}"][1]) for k in range(6)]
        ctx.check("check_stop_conditions: stops at nn_max or below the residual tolerance, not before", st == [0, 1, 1, 1, 0, 1], "native-vs-contract", cex=str(st), bounded=True)
    finally:
        p.close()


def units():
    u = [Unit(f"wave solution {k}", u_wave_solution, (k,), weight=2) for k in ("PlaneWave", "SphericalGaussian")]
    u += [Unit("wave RHSs Cartesian", u_wave_cart), Unit("TOV", u_tov), Unit("puncture source terms", u_source, weight=5)]
    u += [Unit(f"Laplacian {n} precompute={pre}", u_laplacian, (n, pre), weight=4) for n in coords.ALL for pre in (False, True)]
    u += [Unit(f"source terms in {n}", u_source_coord, (n,), weight=4) for n in coords.ALL]
    ids = ["BrillLindquist", "UIUCBlackHole", "StaticTrumpet", "OffsetKerrSchild"]
    u += [Unit(f"black-hole data {k}", u_bh, (k,), weight=6) for k in ids]
    u += [Unit(f"standard gauge {k} cf={cf}", u_gauge, (k, cf), weight=3) for k in ids for cf in ("W", "chi", "phi")]
    for i, n in enumerate(coords.ALL):
        pre, simd, ko = bool(i & 1), bool((i >> 1) & 1), i % 3 == 0
        for k in range(3 if thorough() else 1):
            j = i + k
            wv = ["PlaneWave", "SphericalGaussian"][(j + 1) % 2] if "Cartesian" not in n else "SphericalGaussian"
            N = [9, 7, 5] if "Cartesian" in n and not simd else [8, 6, 10]
            simd = simd and pre
            u.append(Unit(f"wave kernels {n} {pre},{simd},{ko}", u_wave_c, (n, pre, simd, ko, wv, N), weight=7))
            u.append(Unit(f"elliptic kernels {n} {not pre},{not pre and i % 3 == 0}", u_elliptic_c, (n, not pre, not pre and i % 3 == 0, [8, 6, 10] if not pre and i % 3 == 0 else N), weight=9))
            pre, simd, ko = not pre, True, not ko
    return u
